"""R01 - R03: the life of a request, the endpoints and the symbol proxy."""
import json
import re

from .util import *
from .keys import struct_of, SVC, T_CERR
from .download import kind_of, failure, T_FILE, SRC
from engine.ext import E_IO
from engine.serde import struct_schema, default_value
from engine.std import m as method, EXT_ENUMS
from engine.dom import Future, RustPanic
from engine.drops import Drops

SEC = 10 ** 9
APP = 'symbolicator::'
RS = APP + 'service::'
EP = APP + 'endpoints::'
RESP = RS + 'SymbolicationResponse'
LIMIT = 2
EXT_ENUMS.setdefault('Method', ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PATCH'])


# ------------------------------------------------------------------ R01: the life of a request
def r01(c):
    c.section('life', lambda: life(c))
    c.section('polling', lambda: polling(c))
    c.section('wiring', lambda: wiring(c))


def efield(e, name):
    return deref(e.fields[name]) if isinstance(e.fields, dict) else None


class Cancelled(RustPanic):
    def __init__(self):
        RustPanic.__init__(self, 'cancelled')


def life(c):
    def total(it):
        """What an atomic operation sees: the slots of others, which may change at any time, and the one of this request."""
        n = len(it.seen)
        others = it.ctx.choose(('other requests', n), [0, LIMIT - 1, LIMIT] if it.limit is not None else [0, LIMIT])
        it.seen.append(others)
        return others + it.mine

    def change(it, by):
        it.mine += by
        it.log.append(('slots', by, it.seen[-1]))

    method('slots', 'clone')(lambda c2: c2.v)

    @method('slots', 'load')
    def _(c2):
        return total(c2.it)

    @method('slots', 'fetch_add')
    def _(c2):
        t = total(c2.it)
        change(c2.it, c2.args[0])
        return t

    @method('slots', 'fetch_sub')
    def _(c2):
        t = total(c2.it)
        change(c2.it, -c2.args[0])
        return t

    @method('slots', 'fetch_update', 'try_update')
    def _(c2):
        t = total(c2.it)
        r = c2.it.force(deref(c2.it.call_value(c2.args[2], [t])))
        if r.variant == 'None':
            return err(t)
        change(c2.it, r.fields[0] - t)
        return ok(t)

    @method('slots', 'compare_exchange', 'compare_exchange_weak')
    def _(c2):
        t = total(c2.it)
        if t != c2.args[0]:
            return err(t)
        change(c2.it, c2.args[1] - t)
        return ok(t)

    method('requests', 'clone', 'lock')(lambda c2: ok(c2.v) if c2.name == 'lock' else c2.v)

    @method('requests', 'insert')
    def _(c2):
        c2.it.log.append(('insert', show(c2.it.freeze(deref(c2.args[0]))), deref(c2.args[1])))
        return none()

    @method('requests', 'remove')
    def _(c2):
        c2.it.log.append(('remove', show(c2.it.freeze(deref(c2.args[0])))))
        return none()
    method('receiver', 'shared', 'clone')(lambda c2: c2.v)

    @method('sender', 'send')
    def _(c2):
        c2.it.log.append(('send', c2.args[0]))
        c2.v.sent = True
        return ok(UNIT)

    @method('pool', 'spawn')
    def _(c2):
        c2.it.spawned.append(c2.args[0])
        return Native('join handle')

    def on_drop(f):
        return lambda it: it.call_value(f, [])

    def setup(it):
        it.drops = Drops(it)
        it.seen, it.log, it.spawned, it.mine = [], [], [], 0

    def given(it):
        it.limit = it.ctx.choose(('limit',), [LIMIT, None])
        it.dif = it.ctx.choose(('dif candidates',), [True, False])
        inner = struct_of(c, it, RS + 'RequestServiceInner', requests=Native('requests'), current_requests=Native('slots'), max_concurrent_requests=some(it.limit) if it.limit else none(),
                          cpu_pool=Native('pool'), symbolication_taskmon=Native('taskmon'))

        def work():
            it.log.append(('work', it.mine, list(it.ctx.timers)))
            it.end = it.ctx.choose(('work',), ['Native', 'Js', 'Err', 'panic'])
            if it.end == 'panic':
                raise RustPanic('the request crashes')
            return err(Str('the error')) if it.end == 'Err' else ok(Enum(RS + 'CompletedResponse', it.end, [Native('result')]))
        return {'self': it.std.temp_ref(struct_of(c, it, RS + 'RequestService', inner=inner)), 'f': Future(work, 'f'), 'task_name': Str('task'),
                'options': struct_of(c, it, RS + 'RequestOptions', dif_candidates=it.dif)}

    def sleep(it, a):
        it.log.append(('sleep', it.freeze(a[0])))
        if it.ctx.choose(('sleep',), ['ends', 'cancelled']) == 'cancelled':
            raise Cancelled()
        return UNIT

    def channel(it, a):
        tx, rx = Native('sender', sent=False), Native('receiver')
        tx.on_drop = lambda it2: it2.log.append(('closed',))
        it.rx = rx
        return Tup([tx, rx])

    def run(it, f, a):
        v = it.call_def(f, a)
        it.accepted = len(it.log)
        it.crashed = None
        for fut in it.spawned:
            if it.ctx.choose(('task',), ['runs', 'is dropped']) == 'runs':
                try:
                    it.await_value(fut)
                except RustPanic as e:
                    if e.msg not in ('cancelled', 'the request crashes'):
                        raise
                    it.crashed = e.msg
        it.drops.drop_future(None)
        return v

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        k = it.force(out.value).variant
        log, names = it.log, [x[0] for x in it.log]
        msgs = []
        added = [x for x in log if x[0] == 'slots' and x[1] > 0]
        if it.limit is None and k != 'Ok':
            return 'limit', 'a request is refused although there is no limit'
        if k != 'Ok':
            if it.mine != 0 or 'insert' in names and 'remove' not in names or it.spawned:
                msgs.append(('refused', f'a refused request leaves {names}, {it.mine} slots and {len(it.spawned)} tasks'))
            if it.limit is not None and not any(n >= it.limit for n in it.seen):
                msgs.append(('refused', f'a request is refused while there are {it.seen} of {it.limit} requests'))
            return msgs
        if it.limit is not None and added and added[-1][2] >= it.limit:
            msgs.append(('limit', f'a request is accepted as number {added[-1][2] + 1} of {it.limit}: other requests may come between the check and the increment'))
        if len(it.spawned) != 1:
            return 'task', f'{len(it.spawned)} tasks are started for a request'
        ids = [x for x in log if x[0] == 'insert']
        rid = show(it.freeze(it.force(out.value).fields[0]))
        if len(ids) != 1 or ids[0][1] != rid or ids[0][2] is not it.rx or log.index(ids[0]) >= it.accepted:
            return 'id', f'{rid} is returned, {ids} is known'
        if not re.search(r'new_v4|now_v7|new_v7', rid):
            return 'id', f'the id of a request is {rid}, which may be used for several'
        ran = it.ctx.known(('task',)) == 'runs'
        how = 'is dropped before it runs' if not ran else 'ends' if it.crashed is None else 'crashes' if it.crashed != 'cancelled' else 'is cancelled while its result is kept'
        if it.mine != 0:
            msgs.append(('slot', f'a request that {how} leaves {it.mine} slots occupied'))
        gone = [i for i, x in enumerate(log) if x[0] == 'remove']
        if len(gone) != 1 or log[gone[0]][1] != rid:
            msgs.append(('forgotten', f'a request that {how} is forgotten {len(gone)} times'))
        work = [x for x in log if x[0] == 'work']
        for w in work:
            if w[1] != 1:
                msgs.append(('slot', f'a running request occupies {w[1]} slots'))
            if not any(isinstance(t, int) and 0 < t <= 3600 * SEC for t in w[2]):
                msgs.append(('time limit', f'a request runs under the limits {w[2]}'))
        sent = [i for i, x in enumerate(log) if x[0] == 'send']
        if not ran or it.crashed == 'the request crashes':
            if sent or 'closed' not in names:
                msgs.append(('answer', f'a request that {how} does not tell those who wait: {names}'))
            return msgs
        if len(sent) != 1:
            return msgs + [('answer', f'{len(sent)} answers are sent')]
        i = sent[0]
        kept = [j for j, x in enumerate(log) if x[0] == 'sleep']
        if not kept or gone and gone[0] < kept[-1] or not all(isinstance(log[j][1], int) and 30 * SEC <= log[j][1] <= 3600 * SEC for j in kept) or kept[0] < i:
            msgs.append(('kept', f'the result is not kept for pollers: {names}'))
        freed = [j for j, x in enumerate(log) if x[0] == 'slots' and x[1] < 0]
        if kept and freed and freed[-1] > kept[0]:
            msgs.append(('slot', 'the slot is occupied while the result is kept'))
        resp = it.force(deref(it.force(deref(log[i][1])).items[1]))
        elapsed = any(e[0] == 'elapsed' for e in it.ctx.trace)
        want = 'Timeout' if elapsed else 'Failed' if it.end == 'Err' else 'Completed'
        if resp.variant != want:
            msgs.append(('answer', f'{resp.variant} instead of {want}'))
        elif want == 'Completed':
            inner = it.force(deref(resp.fields[0]))
            if inner.variant != it.end or it.force(deref(inner.fields[0])).kind != 'result':
                msgs.append(('answer', f'the result {show(inner)} is sent for a {it.end} request'))
            cleared = 'clear' in names
            if cleared != (it.end == 'Native' and not it.dif):
                msgs.append(('candidates', f'candidates are {"" if cleared else "not "}removed from a {it.end} response, requested: {it.dif}'))
        elif want == 'Failed' and 'the error' not in show(it.freeze(efield(resp, 'message'))):
            msgs.append(('answer', f'the failure is reported as {show(resp)}'))
        return msgs

    def clear(it, a):
        it.log.append(('clear',))
        return UNIT
    through = lambda it, r, a: deref(r)
    c.product('life', RS + 'RequestService::create_symbolication_request', spec, setup=setup, given=given, run=run, floor=40,
              opaque={'clear_dif_candidates': clear, 'measure': lambda it, a: a[2], 'CallOnDrop::new': lambda it, a: Native('guard', on_drop=on_drop(a[0]))},
              models={'oneshot::channel': channel, 'time::sleep': sleep, 'sentry::configure_scope': lambda it, a: none(), 'configure_scope': lambda it, a: none()},
              mmodels={'bind_hub': through, 'instrument': lambda it, r, a: deref(a[0]), 'current': through})

    # removing candidates removes all of them and nothing else
    T_RES = Ty('symbolicator_native::interface::CompletedSymbolicationResponse')

    def cgiven(it):
        n = it.ctx.choose(('modules',), [0, 1, 2])
        ms = [struct_of(c, it, 'symbolicator_native::interface::CompleteObjectInfo', n=i, candidates=Native('candidates', n=i)) for i in range(n)]
        it.n, it.cleared = n, []
        return {'response': it.std.temp_ref(struct_of(c, it, T_RES[0], modules=Vec(ms)))}
    method('candidates', 'clear')(lambda c2: c2.it.cleared.append(c2.v.n) or UNIT)

    def cspec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if sorted(it.cleared) != list(range(it.n)):
            return f'candidates of {it.cleared} of {it.n} modules are removed'
    c.product('candidates', RS + 'clear_dif_candidates', cspec, given=cgiven, floor=3)


def polling(c):
    method('known requests', 'lock')(lambda c2: ok(c2.v))

    @method('known requests', 'get')
    def _(c2):
        c2.it.asked.append(show(c2.it.freeze(deref(c2.args[0]))))
        return some(c2.it.std.temp_ref(chan(c2.it))) if c2.it.ctx.choose(('known',), [True, False]) else none()

    def chan(it):
        def go():
            it.waited = True
            r = it.ctx.choose(('channel',), ['answer', 'closed'])
            return ok(Tup([Term('finished', (), Ty('Instant')), Enum(RESP, 'Failed', {'message': Str('the answer')})])) if r == 'answer' else err(Term('canceled', (), Ty('Canceled')))
        return Future(go, 'channel')

    def setup(it):
        it.asked, it.waited = [], False

    def given(it, whole):
        it.t = it.ctx.choose(('timeout',), [None, 0, 7])
        t = none() if it.t is None else some(it.t)
        if not whole:
            return {'request_id': Term('the id', (), Ty(RS + 'RequestId')), 'timeout': t, 'channel': chan(it)}
        inner = struct_of(c, it, RS + 'RequestServiceInner', requests=Native('known requests'))
        return {'self': it.std.temp_ref(struct_of(c, it, RS + 'RequestService', inner=inner)), 'request_id': Term('the id', (), Ty(RS + 'RequestId')), 'timeout': t}

    def spec(it, a, out, whole):
        if out.panic:
            return 'panic', out.panic
        v = it.force(out.value)
        if whole:
            if any('the id' not in x for x in it.asked) or not it.asked:
                return 'id', f'{it.asked} is looked up'
            if it.ctx.known(('known',)) is False:
                return None if v.variant == 'None' else ('unknown', f'an unknown request is answered {show(v)}')
            if v.variant != 'Some':
                return 'known', 'a known request is not answered'
            v = it.force(deref(v.fields[0]))
        timers = [e[1] for e in it.ctx.trace if e[0] == 'timeout']
        if it.t is None and timers or it.t is not None and timers != [it.t * SEC]:
            return 'timeout', f'the answer is awaited for {timers}, requested: {it.t} s'
        if any(e[0] == 'elapsed' for e in it.ctx.trace):
            if v.variant != 'Pending' or 'the id' not in show(it.freeze(efield(v, 'request_id'))) or not 0 < efield(v, 'retry_after') <= 60:
                return 'pending', f'a running request is reported as {show(v)}'
            return None
        want = 'Failed' if it.ctx.known(('channel',)) == 'answer' else 'InternalError'
        if v.variant != want or want == 'Failed' and 'the answer' not in show(it.freeze(v)):
            return 'answer', f'{show(v)} instead of {want}'
    c.product('waiting', RS + 'wrap_response_channel', lambda it, a, out: spec(it, a, out, False), setup=setup, given=lambda it: given(it, False), floor=6)
    c.product('polling', RS + 'RequestService::get_response', lambda it, a, out: spec(it, a, out, True), setup=setup, given=lambda it: given(it, True), floor=7)

    def poll_spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = it.force(out.value)
        if it.calls != [('the id', 'query timeout')]:
            return 'parameters', f'the request is polled with {it.calls}'
        if it.ctx.known(('known',)):
            return None if v.variant == 'Ok' and 'the answer' in show(it.freeze(v)) else ('answer', f'{show(v)}')
        return None if v.variant == 'Err' and 'NOT_FOUND' in show(it.freeze(v)) else ('unknown', f'an unknown request is answered {show(v)}')

    def get_response(it, a):
        it.calls.append((show(it.freeze(deref(a[1]))).split('(')[0], show(it.freeze(deref(a[2]))).split('(')[0]))
        return Future(lambda: some(Str('the answer')) if it.ctx.choose(('known',), [True, False]) else none())
    c.product('poll endpoint', EP + 'requests::poll_request', poll_spec, setup=lambda it: setattr(it, 'calls', []), floor=2,
              run=lambda it, f, a: call_endpoint(it, f, [Native('service'), Term('the id', (), Ty(RS + 'RequestId')),
                                                         struct_of(c, it, EP + 'requests::PollSymbolicationRequestQueryParams', timeout=Term('query timeout', (), Ty('Option', Ty('u64'))))]),
              opaque={'RequestService::get_response': get_response}, models={'sentry::configure_scope': lambda it, a: none()}, mmodels={'get_response': lambda it, r, a: get_response(it, [r] + a)})


def call_endpoint(it, f, args):
    """Calls a request handler; extractors are destructured in its parameters."""
    return it.call_def(f, [Struct('axum', {'0': x}) for x in args])


def wiring(c):
    """The configured limit is the one requests are counted against, and counting starts at zero."""
    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = it.force(out.value)
        if v.variant != 'Ok':
            return None if it.ctx.known(('services',)) is False else ('result', f'{show(v)}')
        inner = it.force(deref(it.field(it.force(deref(v.fields[0])), 'inner')))
        lim = show(it.freeze(deref(inner.fields['max_concurrent_requests'])))
        if 'config.max_concurrent_requests' not in lim or any(x in lim for x in '+-*/'):
            return 'limit', f'the limit is {lim}'
        n = deref(inner.fields['current_requests'])
        n = n.v if isinstance(n, Native) and n.kind == 'cell' else n
        if not (n == 0 or isinstance(n, (Struct, Native)) and '0' in show(n)):
            return 'slots', f'{show(n)} slots are occupied at the start'

    def services(it, a):
        return ok(struct_of(c, it, SVC + 'services::SharedServices', config=a[0])) if it.ctx.choose(('services',), [True, False]) else err(Str('the error'))
    c.product('service', RS + 'RequestService::create', spec, floor=2, opaque={'SharedServices::new': services, 'SymbolicationActor::new': lambda it, a: Native('actor'),
              'SourceMapService::new': lambda it, a: Native('actor'), 'ProguardService::new': lambda it, a: Native('actor')},
              given=lambda it: {'config': Term('config', (), Ty(SVC + 'config::Config')), 'io_pool': Native('pool of tasks'), 'cpu_pool': Native('pool of tasks')},
              models={'TaskMonitor::new': lambda it, a: Native('taskmon'), 'tokio_metrics::TaskMonitor::new': lambda it, a: Native('taskmon')}, mmodels={'spawn': lambda it, r, a: Native('join handle')})


for _n in ('clone', 'spawn'):
    method('pool of tasks', _n)(lambda c2, n=_n: c2.v if n == 'clone' else Native('join handle'))
method('taskmon', 'clone')(lambda c2: c2.v)


# ------------------------------------------------------------------ R02: endpoints
NI = 'symbolicator_native::interface::'
JI = 'symbolicator_js::interface::'
VI = 'symbolicator_proguard::interface::'


def r02(c):
    c.section('requests with bodies', lambda: bodies(c))
    c.section('requests with forms', lambda: forms(c))
    c.section('fields', lambda: fields(c))
    c.section('actors', lambda: actors(c))
    c.section('names', lambda: names(c))
    c.section('errors', lambda: errors(c))
    c.section('routes', lambda: routes(c))


def service_methods():
    """The service endpoints talk to: it accepts or refuses a request, and knows it afterwards or not."""
    method('service', 'config')(lambda c2: c2.it.std.temp_ref(Native('service config')))
    method('service', 'clone')(lambda c2: c2.v)
    method('service config', 'default_sources')(lambda c2: Native('default sources'))
    method('service config', 'clone')(lambda c2: c2.v)
    method('service config', 'cache_dir')(lambda c2: some(Str('/cache/tmp')) if c2.it.ctx.choose(('cache dir',), [True, False]) else none())

    @method('service', 'symbolicate_stacktraces', 'symbolicate_js_stacktraces', 'symbolicate_jvm_stacktraces', 'process_minidump', 'process_apple_crash_report')
    def _(c2):
        c2.it.calls.append((c2.name, list(c2.args)))
        return ok(Native('id')) if c2.it.ctx.choose(('accepted',), [True, False]) else err(Struct(RS + 'MaxRequestsError', {}))

    @method('service', 'get_response')
    def _(c2):
        it = c2.it
        it.polls.append((deref(c2.args[0]), show(it.freeze(deref(c2.args[1])))))
        return Future(lambda: some(Native('response')) if it.ctx.choose(('started',), [True, False]) else none())


def setup(it):
    it.calls, it.polls, it.reads, it.log = [], [], [], []


def status_of(it, v):
    """The HTTP status of the error a handler returns."""
    e = it.force(deref(v.fields[0]))
    if isinstance(e, Struct) and 'status' in e.fields:
        return show(it.freeze(e.fields['status'])).split('::')[-1].split('(')[0].split('{')[0]
    if isinstance(e, Struct) and e.ty.endswith('MaxRequestsError'):
        return 'SERVICE_UNAVAILABLE'
    if isinstance(e, Tup):
        return show(it.freeze(it.force(deref(e.items[0])))).split('::')[-1]
    if isinstance(e, Term) and e.op == 'response error':
        return e.args[0]
    if isinstance(e, (Str,)):
        return 'INTERNAL_SERVER_ERROR'
    return show(e)


def answered(it, v, polled='query timeout'):
    """What is wrong with the answer to an accepted or refused request."""
    if it.ctx.known(('accepted',)) is False:
        s = status_of(it, v) if v.variant == 'Err' else show(v)
        return None if s == 'SERVICE_UNAVAILABLE' and not it.polls else ('refused', f'a refused request is answered {s}')
    if [p[0].kind if isinstance(p[0], Native) else show(p[0]) for p in it.polls] != ['id'] or polled not in it.polls[0][1]:
        return 'polled', f'the request is polled with {it.polls}'
    if it.ctx.known(('started',)) is False:
        return None if v.variant == 'Err' and status_of(it, v) == 'INTERNAL_SERVER_ERROR' else ('lost', f'{show(v)}')
    t = text(it, v)
    return None if v.variant == 'Ok' and re.search(r"\bJson\(response\('", t) else ('answer', t)


def text(it, v):
    return show(it.freeze(deref(v)))


def bodies(c):
    service_methods()
    params = lambda it: struct_of(c, it, EP + 'symbolicate::SymbolicationRequestQueryParams', timeout=Term('query timeout', (), Ty('Option', Ty('u64'))), scope=Term('query scope', (), Ty(SVC + 'types::Scope')))

    def body(it, ty, bools, more):
        f = {k: it.ctx.choose((k,), [True, False]) for k in bools}
        return struct_of(c, it, ty, **{**{x['name']: Native('given ' + x['name']) for x in c.w.type(ty).node['fields'] if x['name'] not in f and x['name'] not in more}, **f, **more})

    for n in ('platform', 'signal', 'stacktraces', 'modules', 'source', 'sources', 'release', 'dist', 'exceptions', 'release_package', 'classes', 'module'):
        method('given ' + n, 'clone')(lambda c2: c2.v)

    def check(name, fn, ty, call, reqty, same, given_body, rules):
        def spec(it, a, out):
            if out.panic:
                return 'panic', out.panic
            if len(it.calls) != 1 or it.calls[0][0] != call:
                return 'request', f'{[x[0] for x in it.calls]} is called'
            req = it.force(deref(it.calls[0][1][0]))
            msgs = []
            for f in same:
                v = it.force(deref(it.field(req, f)))
                if not isinstance(v, Native) or v.kind != 'given ' + f:
                    msgs.append((f, f'{f} is {show(v)}'))
            if 'query scope' not in text(it, it.field(req, 'scope')):
                msgs.append(('scope', f'the scope is {text(it, it.field(req, "scope"))}'))
            msgs += [m for m in rules(it, req, it.calls[0][1]) if m]
            a2 = answered(it, it.force(out.value))
            return msgs + ([a2] if a2 else [])
        c.product(name, fn, spec, setup=setup, floor=3, run=lambda it, f, a: call_endpoint(it, f, [Native('service'), params(it), given_body(it, ty)]),
                  models={'sentry::configure_scope': lambda it, a: none(), 'configure_scope': lambda it, a: none(), 'sentry::start_session': lambda it, a: UNIT, 'start_session': lambda it, a: UNIT},
                  opaque={'SymbolicationRequestQueryParams::configure_scope': lambda it, a: UNIT, 'configure_scope': lambda it, a: UNIT, 'from': converted, 'CompleteObjectInfo::from': converted},
                  mmodels={'configure_scope': lambda it, r, a: UNIT})

    def converted(it, a):
        x = it.force(deref(a[0]))
        return Native('module object', n=x.n) if isinstance(x, Native) and x.kind == 'given module' else NotImplemented

    # ---- native
    def native_body(it, ty):
        it.src = it.ctx.choose(('sources',), ['none', 'some'])
        it.asc, it.dif, it.n = it.ctx.choose(('source context',), [True, False]), it.ctx.choose(('dif',), [True, False]), it.ctx.choose(('modules',), [0, 2])
        return body(it, ty, (), {'sources': none() if it.src == 'none' else some(Native('given sources')), 'modules': Vec([Native('given module', n=i) for i in range(it.n)]), 'scraping': Native('given scraping'),
                                 'options': struct_of(c, it, RS + 'RequestOptions', dif_candidates=it.dif, apply_source_context=it.asc)})

    def native_rules(it, req, args):
        s = it.force(deref(it.field(req, 'sources')))
        want = 'default sources' if it.src == 'none' else 'given sources'
        yield None if isinstance(s, Native) and s.kind == want else ('sources', f'{show(s)} instead of the {want}')
        ms = [x for x in items(it, it.field(req, 'modules'))]
        yield None if [getattr(it.force(deref(x)), 'n', None) for x in ms] == list(range(it.n)) else ('modules', f'{showl(ms)} of {it.n} modules')
        yield None if it.field(req, 'apply_source_context') is it.asc else ('source context', f'source context: {it.field(req, "apply_source_context")}, requested: {it.asc}')
        yield None if 'Symbolicate' in text(it, it.field(req, 'origin')) else ('origin', 'frames of a request are treated as those of a minidump')
        sc = it.force(deref(it.field(req, 'scraping')))
        yield None if isinstance(sc, Native) and sc.kind == 'given scraping' else ('scraping', f'{show(sc)}')
        o = it.force(deref(args[1]))
        yield None if it.field(o, 'dif_candidates') is it.dif else ('options', f'{show(o)}')
        rw = text(it, it.field(req, 'rewrite_first_module'))
        yield None if 'default' in rw or '[]' in rw or rw.endswith("(('0', vec))") else ('rewriting', f'the first module is rewritten by {rw}')
    check('native', EP + 'symbolicate::symbolicate_frames', EP + 'symbolicate::SymbolicationRequestBody', 'symbolicate_stacktraces', NI + 'SymbolicateStacktraces',
          ['platform', 'signal', 'stacktraces'], native_body, native_rules)

    # ---- JavaScript
    def js_body(it, ty):
        it.on, it.allow, it.asc = (it.ctx.choose((k,), [True, False]) for k in ('scraping', 'allow scraping', 'source context'))
        sc = struct_of(c, it, T_FILE_SCRAPING(c), enabled=it.on, n=7)
        return body(it, ty, (), {'scraping': sc, 'allow_scraping': it.allow, 'options': struct_of(c, it, EP + 'symbolicate_js::JsRequestOptions', apply_source_context=it.asc)})

    def js_rules(it, req, args):
        sc = it.force(deref(it.field(req, 'scraping')))
        yield None if sc.fields.get('n') == 7 else ('scraping', f'the scraping settings are {show(sc)}')
        yield None if it.force(it.field(sc, 'enabled')) is (it.on and it.allow) else ('scraping', f'scraping is {show(it.field(sc, "enabled"))}; enabled: {it.on}, allowed: {it.allow}')
        yield None if it.field(req, 'apply_source_context') is it.asc else ('source context', f'source context: {it.field(req, "apply_source_context")}, requested: {it.asc}')
        for f in ('source',):
            v = it.force(deref(it.field(req, f)))
            yield None if isinstance(v, Native) and v.kind == 'given source' else (f, show(v))
    check('JavaScript', EP + 'symbolicate_js::handle_symbolication_request', EP + 'symbolicate_js::JsSymbolicationRequestBody', 'symbolicate_js_stacktraces', JI + 'SymbolicateJsStacktraces',
          ['platform', 'stacktraces', 'modules', 'release', 'dist'], js_body, js_rules)

    # ---- JVM
    def jvm_body(it, ty):
        it.asc = it.ctx.choose(('source context',), [True, False])
        return body(it, ty, (), {'options': struct_of(c, it, EP + 'symbolicate_jvm::JvmRequestOptions', apply_source_context=it.asc)})

    def jvm_rules(it, req, args):
        yield None if it.field(req, 'apply_source_context') is it.asc else ('source context', f'source context: {it.field(req, "apply_source_context")}, requested: {it.asc}')
    check('JVM', EP + 'symbolicate_jvm::handle_symbolication_request', EP + 'symbolicate_jvm::JvmSymbolicationRequestBody', 'symbolicate_jvm_stacktraces', VI + 'SymbolicateJvmStacktraces',
          ['platform', 'sources', 'exceptions', 'stacktraces', 'modules', 'release_package', 'classes'], jvm_body, jvm_rules)


def T_FILE_SCRAPING(c):
    return next(t for t in c.w.typedefs if t.startswith(SVC) and t.endswith('::ScrapingConfig'))


def forms(c):
    service_methods()
    common = ['sources', 'scraping', 'options', 'platform']
    params = lambda it: struct_of(c, it, EP + 'symbolicate::SymbolicationRequestQueryParams', timeout=Term('query timeout', (), Ty('Option', Ty('u64'))), scope=Term('query scope', (), Ty(SVC + 'types::Scope')))

    @method('multipart', 'next_field')
    def _(c2):
        it = c2.it

        def go():
            if it.at == it.breaks:
                it.broke = True
                return err(Term('response error', ('BAD_REQUEST',), Ty('MultipartError')))
            if it.at >= len(it.form):
                return ok(none())
            it.at += 1
            return ok(some(Native('form field', n=it.form[it.at - 1])))
        return Future(go)
    method('form field', 'name')(lambda c2: none() if c2.v.n is None else some(Str(c2.v.n)))

    def fail(s):
        return err(Term('response error', (s,), Ty(EP + 'error::ResponseError')))

    def read(it, a):
        f, size = it.force(deref(a[0])), it.force(deref(a[1]))

        def go():
            it.reads.append((f.n, size))
            return ok(Native('form data', n=f.n)) if it.ctx.choose(('size of', f.n), ['good', 'too large']) == 'good' else fail('PAYLOAD_TOO_LARGE')
        return Future(go)

    def parse(it, a):
        d = it.force(deref(a[0]))
        if it.ctx.choose(('json of', d.n), ['good', 'bad']) == 'bad':
            return err(Term('response error', ('BAD_REQUEST',), Ty('serde_json::Error')))
        return ok(struct_of(c, it, RS + 'RequestOptions', n=7)) if d.n == 'options' else ok(Native('given ' + d.n))

    def stream(it, a):
        f, dest = it.force(deref(a[0])), it.force(deref(a[1]))

        def go():
            it.log.append((f.n, dest.n if isinstance(dest, Native) and dest.kind == 'payload file' else show(dest)))
            return ok(UNIT) if it.ctx.choose(('payload',), ['good', 'broken']) == 'good' else fail('INTERNAL_SERVER_ERROR')
        return Future(go)

    def temp(it, a=None):
        it.temps += 1
        return ok(Native('payload file', n=it.temps)) if it.ctx.choose(('temp file', it.temps), [True, False]) else err(Term('response error', ('INTERNAL_SERVER_ERROR',), E_IO))
    for n in ('prefix', 'suffix', 'rand_bytes'):
        method('temp builder', n)(lambda c2: c2.v)
    method('temp builder', 'tempfile', 'tempfile_in')(lambda c2: temp(c2.it))
    method('payload file', 'into_parts')(lambda c2: Tup([c2.v, c2.v]))
    for n in ('to_path_buf', 'as_ref', 'path', 'as_file', 'deref'):
        method('payload file', n)(lambda c2: c2.v)
    method('payload file', 'into_std')(lambda c2: Future(lambda: c2.v))
    method('payload view', 'starts_with')(lambda c2: show(deref(c2.args[0])).strip('b"\'') == c2.it.start)

    def view(it, a):
        return ok(Native('payload view')) if it.ctx.choose(('readable',), [True, False]) else err(Term('io error', (), E_IO))
    empty = lambda it, a: Native('empty view')
    method('empty view', 'starts_with')(lambda c2: False)

    def check(name, fn, payload, call, optional):
        forms_ = [[payload] + optional, list(reversed(optional)) + [payload], [payload], [payload, 'other', None], optional, [], [None]] + [[o, payload] for o in optional]

        def fsetup(it):
            setup(it)
            it.at, it.temps = 0, 0
            it.form = it.ctx.choose(('fields',), forms_)
            it.broke, it.breaks = False, it.ctx.choose(('form breaks off after',), [None] + sorted({0, len(it.form)}))
            it.start = it.ctx.choose(('payload starts with',), ['MDMP', '--']) if payload in it.form and call == 'process_minidump' else None

        def spec(it, a, out):
            if out.panic:
                return 'panic', out.panic
            v = it.force(out.value)
            for n, size in it.reads:
                if not isinstance(size, int) or not 0 < size <= 2 ** 20 or n == payload:
                    return 'size', f'up to {show(size)} bytes of {n} are read'
            bad = None
            for n in it.form[:it.breaks]:
                if n == payload:
                    bad = 'INTERNAL_SERVER_ERROR' if it.ctx.known(('temp file', it.temps)) is False or it.ctx.known(('payload',)) == 'broken' else None
                elif n in optional:
                    bad = 'PAYLOAD_TOO_LARGE' if it.ctx.known(('size of', n)) == 'too large' else 'BAD_REQUEST' if it.ctx.known(('json of', n)) == 'bad' else None
                if bad:
                    break
            if not bad and (payload not in it.form or it.breaks is not None or it.start == '--' and it.ctx.known(('readable',)) is not False):
                bad = 'BAD_REQUEST'
            if bad:
                if it.calls:
                    return 'invalid', f'a request with the fields {it.form} is processed although it is invalid'
                s = status_of(it, v) if v.variant == 'Err' else show(v)
                return None if s == bad else ('status', f'{s} instead of {bad} for the fields {it.form}')
            if [x[0] for x in it.calls] != [call]:
                return 'request', f'{[x[0] for x in it.calls]} is called for the fields {it.form}: {show(v)}'
            args = it.calls[0][1]
            got = dict(zip(['platform', 'scope', 'payload', 'sources', 'scraping', 'options'], args)) if len(args) == 6 else \
                {**{k: it.field(it.force(deref(args[0])), k) for k in ['platform', 'scope', 'sources', 'scraping'] + (['rewrite_first_module'] if 'rewrite_first_module' in optional else [])},
                 'payload': it.field(it.force(deref(args[0])), 'minidump_file'), 'options': args[1]}
            msgs = []
            p = it.force(deref(got['payload']))
            if not isinstance(p, Native) or p.kind != 'payload file' or it.log != [(payload, p.n)]:
                msgs.append(('payload', f'{show(p)} is processed, {it.log} was received'))
            if 'query scope' not in text(it, got['scope']):
                msgs.append(('scope', f'the scope is {text(it, got["scope"])}'))
            for k in optional:
                x = it.force(deref(got[k]))
                if k in it.form:
                    good = isinstance(x, Struct) and x.fields.get('n') == 7 if k == 'options' else isinstance(x, Native) and x.kind == 'given ' + k
                elif k == 'sources':
                    good = isinstance(x, Native) and x.kind == 'default sources'
                elif k == 'platform':
                    good = isinstance(x, Enum) and x.variant == 'None'
                elif k == 'options':
                    good = isinstance(x, Struct) and it.field(x, 'dif_candidates') is False and it.field(x, 'apply_source_context') is True
                else:
                    good = not isinstance(x, Native)
                if not good:
                    msgs.append((k, f'{k} is {show(x)}, given: {k in it.form}'))
            a2 = answered(it, v)
            return msgs + ([a2] if a2 else [])
        c.product(name, fn, spec, setup=fsetup, floor=20, run=lambda it, f, a: call_endpoint_form(it, f, params(it)),
                  models={'sentry::configure_scope': lambda it, a: none(), 'sentry::start_session': lambda it, a: UNIT, 'start_session': lambda it, a: UNIT, 'serde_json::from_slice': parse,
                          'tempfile::Builder::new': lambda it, a: Native('temp builder'), 'Builder::new': lambda it, a: Native('temp builder'), 'tempfile::tempfile': temp, 'tempfile': temp,
                          'NamedTempFile::new': temp, 'NamedTempFile::new_in': temp, 'File::from_std': lambda it, a: a[0], 'ByteView::open': view, 'ByteView::from_slice': empty},
                  opaque={'SymbolicationRequestQueryParams::configure_scope': lambda it, a: UNIT, 'configure_scope': lambda it, a: UNIT, 'read_multipart_data': read, 'stream_multipart_file': stream},
                  mmodels={'configure_scope': lambda it, r, a: UNIT})
    check('minidumps', EP + 'minidump::handle_minidump_request', 'upload_file_minidump', 'process_minidump', common + ['rewrite_first_module'])
    check('crash reports', EP + 'applecrashreport::handle_apple_crash_report_request', 'apple_crash_report', 'process_apple_crash_report', common)


def call_endpoint_form(it, f, params):
    return it.call_def(f, [Struct('axum', {'0': Native('service')}), Struct('axum', {'0': params}), Native('multipart')])


def fields(c):
    MAX = 10

    def nxt(c2):
        it = c2.it

        def go():
            if it.at >= len(it.sizes):
                return None
            it.at += 1
            if it.ctx.choose(('chunk', it.at), ['good', 'broken']) == 'broken':
                return err(Term('response error', ('BAD_REQUEST',), Ty('MultipartError')))
            return ok(Vec([Term('byte', (it.at, j), Ty('u8')) for j in range(it.sizes[it.at - 1])]))
        r = go
        return r

    @method('stream of chunks', 'next')
    def _(c2):
        g = nxt(c2)

        def go():
            r = g()
            return none() if r is None else some(r)
        return Future(go)

    @method('stream of chunks', 'chunk')
    def _(c2):
        g = nxt(c2)

        def go():
            r = g()
            return ok(none()) if r is None else r if r.variant == 'Err' else ok(some(r.fields[0]))
        return Future(go)
    method('stream of chunks', 'name')(lambda c2: some(Str('name')))

    def fsetup(it):
        it.at, it.log, it.pos = 0, [], None
        it.sizes = it.ctx.choose(('sizes',), [[], [3], [10], [11], [4, 6], [6, 5], [1, 2, 3], [5, 5, 1]])

    def broken(it):
        return any(it.ctx.known(('chunk', i)) == 'broken' for i in range(1, len(it.sizes) + 1))

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = it.force(out.value)
        if broken(it):
            return None if v.variant == 'Err' and status_of(it, v) in ('BAD_REQUEST', 'PAYLOAD_TOO_LARGE') else ('broken', f'{show(v)} for a form that breaks off')
        n = sum(it.sizes)
        if n > MAX:
            return None if v.variant == 'Err' and status_of(it, v) == 'PAYLOAD_TOO_LARGE' else ('size', f'{show(v)[:80]} for {n} of {MAX} bytes')
        want = [Term('byte', (i + 1, j), Ty('u8')) for i, s in enumerate(it.sizes) for j in range(s)]
        if v.variant != 'Ok' or not same_list(it, items(it, v.fields[0]), want):
            return 'data', f'{show(v)[:80]} for chunks of {it.sizes}'
    c.product('form fields', EP + 'multipart::read_multipart_data', spec, setup=fsetup, given=lambda it: {'field': Native('stream of chunks'), 'max_size': MAX}, floor=12)

    def step(c2, what, data=None):
        it = c2.it

        def go():
            good = it.ctx.choose((what, len(it.log)), [True, False])
            it.log.append((what, data, good))
            return ok(UNIT) if good else err(Term('response error', ('INTERNAL_SERVER_ERROR',), E_IO))
        return Future(go)
    method('form file', 'write_all_buf', 'write_all')(lambda c2: step(c2, 'write', deref(c2.args[0])))
    method('form file', 'flush')(lambda c2: step(c2, 'flush'))
    method('form file', 'rewind')(lambda c2: step(c2, 'rewind'))
    method('form file', 'seek')(lambda c2: step(c2, 'rewind' if show(c2.it.freeze(c2.args[0])).replace(' ', '').endswith('Start(0)') else 'seek'))
    method('form file', 'write', 'write_buf')(lambda c2: step(c2, 'partial write'))

    def fspec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = it.force(out.value)
        if broken(it) or any(not g for _, _, g in it.log):
            return None if v.variant == 'Err' else ('broken', 'a payload that cannot be received or written is processed')
        if v.variant != 'Ok':
            return 'result', show(v)
        got = [x for w, d, _ in it.log if w == 'write' for x in items(it, d)]
        want = [Term('byte', (i + 1, j), Ty('u8')) for i, s in enumerate(it.sizes) for j in range(s)]
        if not same_list(it, got, want) or any(w == 'partial write' for w, _, _ in it.log):
            return 'data', f'{len(got)} of {len(want)} bytes are written'
        kinds = [w for w, _, _ in it.log]
        if 'flush' not in kinds or 'write' in kinds[kinds.index('flush'):] or not kinds or kinds[-1] not in ('rewind', 'flush') or 'rewind' not in kinds or 'write' in kinds[kinds.index('rewind'):]:
            return 'position', f'the steps are {kinds}'
    c.product('form files', EP + 'multipart::stream_multipart_file', fspec, setup=fsetup, given=lambda it: {'field': Native('stream of chunks'), 'file': it.std.temp_ref(Native('form file'))}, floor=20)


def actors(c):
    """Requests reach the actor they are for, and its result becomes the response."""
    for n, how in (('symbolicate', 'result'), ('process_minidump', 'result'), ('process_apple_crash_report', 'result'), ('symbolicate_js', 'value'), ('symbolicate_jvm', 'value')):
        def meth(c2, n=n, how=how):
            def go():
                c2.it.calls.append((c2.v.n, n, list(c2.args)))
                if how == 'value':
                    return Native('result of actor')
                return ok(Native('result of actor')) if c2.it.ctx.choose(('actor',), [True, False]) else err(Str('the error'))
            return Future(go)
        method('actor', n)(meth)

    def create(it, a):
        it.log.append((a[1], a[2], a[3]))
        return ok(Native('id')) if it.ctx.choose(('accepted',), [True, False]) else err(Struct(RS + 'MaxRequestsError', {}))

    def given(it):
        inner = struct_of(c, it, RS + 'RequestServiceInner', native=Native('actor', n='native'), js=Native('actor', n='js'), jvm=Native('actor', n='jvm'))
        return {'self': it.std.temp_ref(struct_of(c, it, RS + 'RequestService', inner=inner))}
    FNS = {'symbolicate_stacktraces': ('native', 'symbolicate', 'Native'), 'process_minidump': ('native', 'process_minidump', 'Native'), 'process_apple_crash_report': ('native', 'process_apple_crash_report', 'Native'),
           'symbolicate_js_stacktraces': ('js', 'symbolicate_js', 'Js'), 'symbolicate_jvm_stacktraces': ('jvm', 'symbolicate_jvm', 'Jvm')}
    for fn, (actor, meth, var) in FNS.items():
        d = c.fn(RS + 'RequestService::' + fn)
        ps = [p['pat']['name'] for p in d.node['params']]

        def spec(it, a, out, actor=actor, meth=meth, var=var, ps=ps):
            if out.panic:
                return 'panic', out.panic
            v = it.force(out.value)
            if len(it.log) != 1:
                return 'request', f'{len(it.log)} requests are created'
            if (v.variant == 'Ok') != it.ctx.known(('accepted',)):
                return 'result', f'{show(v)}'
            o = it.force(deref(it.log[0][1]))
            if 'options' in ps and (not isinstance(o, Native) or o.kind != 'given options'):
                return 'options', f'{show(o)}'
            r = it.force(it.await_value(it.log[0][2]))
            want = [p for p in ps if p != 'options']
            got = [getattr(it.force(deref(x)), 'kind', show(x)).replace('given ', '') for x in it.calls[0][2]] if it.calls else None
            if len(it.calls) != 1 or it.calls[0][:2] != (actor, meth) or got != want:
                return 'actor', f'{[x[:2] for x in it.calls]} is asked with {got} instead of {want}'
            if meth in ('symbolicate', 'process_minidump', 'process_apple_crash_report') and it.ctx.known(('actor',)) is False:
                return None if r.variant == 'Err' and 'the error' in text(it, r) else ('failure', f'a failure becomes {show(r)}')
            if r.variant != 'Ok' or it.force(deref(r.fields[0])).variant != var:
                return 'response', f'{show(r)} instead of a {var} response'
        c.product(fn, d, spec, setup=setup, given=lambda it, ps=ps: {**given(it), **{p: Native('given ' + p) for p in ps}}, floor=2, opaque={'RequestService::create_symbolication_request': create})


def names(c):
    """What requests may contain: names, required fields and defaults on the wire."""
    OPT, REQ = False, True
    WANT = {
        'symbolicate::SymbolicationRequestQueryParams': {'timeout': OPT, 'scope': OPT},
        'requests::PollSymbolicationRequestQueryParams': {'timeout': OPT},
        'symbolicate::SymbolicationRequestBody': {'platform': OPT, 'signal': OPT, 'sources': OPT, 'stacktraces': OPT, 'modules': OPT, 'options': OPT, 'scraping': OPT},
        'symbolicate_js::JsSymbolicationRequestBody': {'platform': OPT, 'source': REQ, 'stacktraces': OPT, 'modules': OPT, 'release': OPT, 'dist': OPT, 'allow_scraping': OPT, 'scraping': OPT, 'options': OPT},
        'symbolicate_js::JsRequestOptions': {'apply_source_context': OPT}, 'symbolicate_jvm::JvmRequestOptions': {'apply_source_context': OPT},
        'symbolicate_jvm::JvmSymbolicationRequestBody': {'platform': OPT, 'sources': REQ, 'exceptions': OPT, 'stacktraces': OPT, 'modules': OPT, 'release_package': OPT, 'classes': OPT, 'options': OPT},
        RS + 'RequestOptions': {'dif_candidates': OPT, 'apply_source_context': OPT}}
    DEFAULT = {'timeout': 'None', 'scope': 'Global', 'signal': 'None', 'sources': 'None', 'allow_scraping': 'True', 'apply_source_context': 'True', 'dif_candidates': 'False', 'release': 'None', 'dist': 'None',
               'release_package': 'None', 'platform': 'None'}

    def run(it, f, a):
        out = {}
        for t, want in WANT.items():
            t = t if t.startswith(RS) else EP + t
            es = {n: e for e in struct_schema(it, Ty(t)) for n in ([e.wire] if isinstance(e.wire, str) else e.wire)}
            for w, req in want.items():
                e = es.get(w)
                out[t, w] = 'missing' if e is None else 'required' if e.required else text(it, default_value(it, e))
        for t in ('symbolicate_js::JsRequestOptions', 'symbolicate_jvm::JvmRequestOptions', RS + 'RequestOptions'):
            t = t if t.startswith(RS) else EP + t
            v = it.force(default_of(it, Ty(t)))
            for k in ('apply_source_context', 'dif_candidates'):
                if k in v.fields:
                    out[t + ' by default', k] = text(it, v.fields[k])
        it.out = out
        return UNIT

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        msgs = []
        for (t, w), got in it.out.items():
            short = t.split('endpoints::')[-1].split('service::')[-1]
            req = WANT.get(short, WANT.get(t, {})).get(w, False)
            if got == 'missing':
                msgs.append((f'{short}.{w}', f'{w} is not a field of {short}'))
            elif req != (got == 'required'):
                msgs.append((f'{short}.{w}', f'{w} of {short} is {got}'))
            elif not req and w in DEFAULT and DEFAULT[w].lower() not in got.lower():
                msgs.append((f'{short}.{w}', f'{w} of {short} is {got} when it is not given'))
        return msgs
    c.product('names', None, spec, run=run)


def errors(c):
    """Errors become answers with the status of their kind."""
    RE = EP + 'error::ResponseError'
    WANT = {'MultipartError': 'BAD_REQUEST', 'serde_json::Error': 'BAD_REQUEST', 'MaxRequestsError': 'SERVICE_UNAVAILABLE', 'anyhow::Error': 'INTERNAL_SERVER_ERROR', 'io::Error': 'INTERNAL_SERVER_ERROR',
            'HttpError': 'INTERNAL_SERVER_ERROR', 'str': 'INTERNAL_SERVER_ERROR'}
    found = {}
    for im in c.w.impls:
        if im.self_id == RE and 'from' in im.fns:
            d = im.fns['from']
            t = json.dumps(d.node['params'][0]['ty'])
            k = 'tuple' if d.node['params'][0]['ty']['k'] == 'tuple' else next((k for k in WANT if re.search(r'"%s"' % '".*?"'.join(k.split('::')), t)), None)
            found[k] = d
    c.rule('kinds of errors', set(found) >= set(WANT) | {'tuple'}, f'errors are converted from {sorted(map(str, found))}', RE)
    for k, d in found.items():
        def spec(it, a, out, k=k):
            if out.panic:
                return 'panic', out.panic
            v = it.force(out.value)
            s = text(it, it.field(v, 'status')).split('::')[-1]
            want = WANT.get(k, 'given status')
            if want not in s:
                return f'status {s} for {k}'
        arg = Tup([Term('given status', (), Ty('StatusCode')), Str('message')]) if k == 'tuple' else Str('message') if k == 'str' else Struct(RS + 'MaxRequestsError', {}) if k == 'MaxRequestsError' else Native('error')
        c.product(f'errors: {k}', d, spec, run=lambda it, f, a, arg=arg: it.call_def(f, [arg]))

    def rspec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if it.statuses != [it.ctx.known(('given status',))]:
            return f'the status of the answer is {it.statuses}'

    def into(it, recv, args):
        r = Native('json response')
        it.resp = r
        return r
    method('json response', 'status_mut')(lambda c2: Ref(lambda: None, lambda v: c2.it.statuses.append(text(c2.it, v).split('::')[-1])))
    d = next(im.fns['into_response'] for im in c.w.impls if im.self_id == RE and 'into_response' in im.fns)
    c.product('answers', d, rspec, setup=lambda it: setattr(it, 'statuses', []), models={'capture_anyhow': lambda it, a: UNIT},
              run=lambda it, f, a: it.call_def(f, [Struct(RE, {'status': Enum('StatusCode', it.ctx.choose(('given status',), ['BAD_REQUEST', 'INTERNAL_SERVER_ERROR', 'SERVICE_UNAVAILABLE']), []), 'err': Native('error')})]),
              opaque={'ApiErrorResponse::from': lambda it, a: Native('body')}, mmodels={'into_response': into})


def routes(c):
    """Which handler answers which path, and how large requests may be."""
    def router(it, routes_, service=None, limits=()):
        return Native('router', routes=routes_, service=service, limits=list(limits))

    def handlers(it, kind, f):
        return Native('method router', handlers={kind: f}, limits=[])
    for m_ in ('get', 'post', 'head', 'put', 'delete'):
        def add(c2, m_=m_):
            return Native('method router', handlers={**c2.v.handlers, m_: c2.args[0]}, limits=c2.v.limits)
        method('method router', m_)(add)

    def limits(v):
        v = deref(v)
        if isinstance(v, Native):
            return list(v.limits) if hasattr(v, 'limits') else []
        return []
    method('method router', 'layer')(lambda c2: Native('method router', handlers=c2.v.handlers, limits=c2.v.limits + limits(c2.args[0])))
    method('service builder', 'layer')(lambda c2: Native('service builder', limits=c2.v.limits + limits(c2.args[0])))
    method('router', 'layer')(lambda c2: router(c2.it, [(p, h, hl, s, l + limits(c2.args[0])) for p, h, hl, s, l in c2.v.routes], c2.v.service))
    method('router', 'with_state')(lambda c2: router(c2.it, [(p, h, hl, deref(c2.args[0]), l) for p, h, hl, s, l in c2.v.routes], c2.args[0]))

    @method('router', 'route')
    def _(c2):
        h = deref(c2.args[1])
        return router(c2.it, c2.v.routes + [(show(deref(c2.args[0])).strip('"'), h.handlers, h.limits, None, [])], c2.v.service)
    WANT = {'/proxy/*path': (['get', 'head'], 'proxy_symstore_request'), '/requests/:request_id': (['get'], 'poll_request'), '/applecrashreport': (['post'], 'handle_apple_crash_report_request'),
            '/minidump': (['post'], 'handle_minidump_request'), '/symbolicate-js': (['post'], 'symbolicate_js::'), '/symbolicate': (['post'], 'symbolicate_frames'),
            '/symbolicate-jvm': (['post'], 'symbolicate_jvm::'), '/healthcheck': (['get'], 'healthcheck')}

    def name(f):
        return getattr(f, 'd', None).id if getattr(f, 'd', None) is not None else getattr(f, 'name', None) or show(f)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = it.force(out.value)
        msgs = []
        got = {p: (h, hl, s, l) for p, h, hl, s, l in v.routes}
        for p, (ms, fn) in WANT.items():
            if p not in got:
                msgs.append((p, f'{p} is not answered'))
                continue
            h, hl, s, l = got[p]
            if sorted(h) != ms or any(fn not in name(f) for f in h.values()):
                msgs.append((p, f'{p} is answered by {[(k, name(f)) for k, f in h.items()]}'))
            if p == '/healthcheck':
                continue
            if not isinstance(s, Native) or s.kind != 'service':
                msgs.append((p, f'the handler of {p} uses the service {show(s)}'))
            inner = [x for x in (hl[-1:] or l[-1:])]
            top = 5 * 2 ** 20 if p == '/symbolicate' else 100 * 2 ** 20
            if not inner or not isinstance(inner[0], int) or not 2 ** 20 <= inner[0] <= top:
                msgs.append((p, f'requests to {p} may have {inner} bytes'))
        return msgs
    c.product('routes', EP + 'create_app', spec, given={'service': Native('service')}, models={
        'Router::new': lambda it, a: router(it, []), 'ServiceBuilder::new': lambda it, a: Native('service builder', limits=[]), 'DefaultBodyLimit::max': lambda it, a: Native('limit', limits=[it.force(a[0])]),
        'DefaultBodyLimit::disable': lambda it, a: Native('limit', limits=['unlimited']),
        'NewSentryLayer::new_from_top': lambda it, a: Native('layer'), 'SentryHttpLayer::with_transaction': lambda it, a: Native('layer'),
        **{p + m_: (lambda it, a, m_=m_: handlers(it, m_, a[0])) for m_ in ('get', 'post', 'head') for p in ('', 'routing::')}})


# ------------------------------------------------------------------ R03: the symbol proxy
def r03(c):
    c.section('objects', lambda: proxy_objects(c))
    c.section('answers', lambda: proxy_answers(c))


def proxy_objects(c):
    method('proxy service', 'config')(lambda c2: c2.it.std.temp_ref(c2.it.config))
    method('proxy config', 'clone')(lambda c2: c2.v)

    @method('proxy service', 'find_object')
    def _(c2):
        it, req = c2.it, c2.it.force(deref(c2.args[0]))

        def go():
            it.finds.append(req)
            it.found = it.ctx.choose(('found',), ['nothing', 'meta', 'error'])
            d = c.w.type(SVC + 'objects::FindResult') or None
            metas = {'nothing': none(), 'meta': some(struct_of(c, it, FOUND, handle=ok(Native('meta handle')))), 'error': some(struct_of(c, it, FOUND, handle=failure(it, 'Timeout')))}
            return struct_of(c, it, d.id, meta=metas[it.found])
        return Future(go)

    @method('proxy service', 'fetch_object')
    def _(c2):
        it, h = c2.it, c2.it.force(deref(c2.args[0]))

        def go():
            it.fetches.append(h.kind if isinstance(h, Native) else show(h))
            r = it.ctx.choose(('fetched',), ['Ok', 'NotFound', 'DownloadError'])
            return ok(Native('object')) if r == 'Ok' else failure(it, r)
        return Future(go)
    FOUND = next(t for t in c.w.typedefs if t.startswith(SVC + 'objects::') and t.endswith('::FoundMeta'))

    def setup(it):
        it.finds, it.fetches, it.paths, it.found = [], [], [], None

    def given(it):
        it.on = it.ctx.choose(('enabled',), [True, False])
        it.config = struct_of(c, it, SVC + 'config::Config', symstore_proxy=it.on, sources=Native('default sources'))
        return {'service': Native('proxy service'), 'path': Term('the path', (), Ty('String'))}
    method('default sources', 'clone')(lambda c2: c2.v)

    def parse(it, a):
        it.paths.append(text(it, a[0]))
        return some(Tup([Native('file types'), Native('object id')])) if it.ctx.choose(('valid path',), [True, False]) else none()

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        k = kind_of(it, out.value)
        if not it.on:
            return None if k == 'NotFound' and not it.finds and not it.fetches else ('disabled', f'{k}, {len(it.finds)} objects are looked for although the proxy is off')
        if any('the path' not in p for p in it.paths) or not it.paths:
            return 'path', f'{it.paths} is looked up'
        if it.ctx.known(('valid path',)) is False:
            return None if k == 'NotFound' and not it.finds else ('path', f'{k} for a path that is not valid')
        if len(it.finds) != 1:
            return 'lookup', f'{len(it.finds)} objects are looked for'
        q = it.finds[0]
        msgs = []
        for f, want in (('filetypes', 'file types'), ('identifier', 'object id'), ('sources', 'default sources')):
            x = it.force(deref(it.field(q, f)))
            if not isinstance(x, Native) or x.kind != want:
                msgs.append((f, f'{f} is {show(x)}'))
        if it.force(deref(it.field(q, 'scope'))).variant != 'Global':
            msgs.append(('scope', f'the scope is {text(it, it.field(q, "scope"))}'))
        if it.force(deref(it.field(q, 'purpose'))).variant != 'Debug':
            msgs.append(('purpose', f'the purpose is {text(it, it.field(q, "purpose"))}'))
        want = {'nothing': 'NotFound', 'error': 'Timeout'}.get(it.found) or it.ctx.known(('fetched',))
        if k != want or it.fetches != (['meta handle'] if it.found == 'meta' else []):
            msgs.append(('result', f'{k} instead of {want} after fetching {it.fetches}'))
        if k == 'Ok' and it.force(deref(it.force(out.value).fields[0])).kind != 'object':
            msgs.append(('result', 'another object is returned'))
        return msgs
    c.product('objects', EP + 'proxy::load_object', spec, setup=setup, given=given, floor=7, models={'parse_symstore_path': parse}, opaque={'parse_symstore_path': parse})


def proxy_answers(c):
    for n in ('status', 'header', 'body'):
        def step(c2, n=n):
            v = c2.v
            new = Native('response builder', status=v.status, headers=dict(v.headers))
            if n == 'status':
                new.status = text(c2.it, c2.args[0]).split('::')[-1]
            elif n == 'header':
                new.headers[text(c2.it, c2.args[0]).strip('"').lower().replace('_', '-').split('::')[-1]] = deref(c2.args[1])
            else:
                return ok(Native('proxy response', status=v.status, headers=v.headers, body=deref(c2.args[0])))
            return new
        method('response builder', n)(step)
    method('proxy request', 'method')(lambda c2: c2.it.std.temp_ref(Enum('Method', c2.it.ctx.choose(('method',), ['GET', 'HEAD']), [])))
    method('object', 'data')(lambda c2: c2.it.std.temp_ref(Native('object data')))
    method('object data', 'clone', 'as_slice')(lambda c2: c2.v)
    method('object data', 'len')(lambda c2: Term('length of object', (), Ty('usize')))

    def setup(it):
        it.paths = []

    def load(it, a):
        it.paths.append(text(it, a[1]))

        def go():
            r = it.ctx.choose(('object',), ['Ok', 'NotFound', 'Timeout'])
            return ok(Native('object')) if r == 'Ok' else failure(it, r)
        return Future(go)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = it.force(out.value)
        r = it.ctx.known(('object',))
        if len(it.paths) != 1 or 'the path' not in it.paths[0]:
            return 'path', f'{it.paths} is served'
        if r == 'Timeout':
            return None if v.variant == 'Err' else ('failure', f'a failed download is answered {show(v)}')
        x = it.force(deref(v.fields[0])) if v.variant == 'Ok' else None
        if not isinstance(x, Native) or x.kind != 'proxy response':
            return 'result', f'{show(v)} for {r}'
        body = 'empty' if isinstance(x.body, Native) and x.body.kind == 'empty body' else 'data' if isinstance(x.body, Native) and x.body.kind == 'object data' else show(x.body)
        if r == 'NotFound':
            return None if x.status == 'NOT_FOUND' and body == 'empty' else ('unknown', f'an unknown object is answered with {x.status} and a body of {body}')
        want = 'empty' if it.ctx.choose(('method',), ['GET', 'HEAD']) == 'HEAD' else 'data'
        if x.status not in (None, 'OK') or body != want:
            return 'body', f'a {it.ctx.known(("method",))} request is answered with {x.status} and a body of {body}'
        if 'length of object' not in text(it, x.headers.get('content-length', 0)):
            return 'length', f'the headers are {list(x.headers)}'
    through = lambda it, a: a[0]
    c.product('answers', EP + 'proxy::proxy_symstore_request', spec, setup=setup, floor=4,
              run=lambda it, f, a: it.call_def(f, [Struct('axum', {'0': Native('proxy service')}), Struct('axum', {'0': Term('the path', (), Ty('String'))}), Native('proxy request')]),
              opaque={'load_object': load}, models={'sentry::configure_scope': lambda it, a: none(), 'Response::builder': lambda it, a: Native('response builder', status=None, headers={}),
              'Body::empty': lambda it, a: Native('empty body'), 'Body::from_stream': through, 'Body::from': through, 'Body::new': through, 'ReaderStream::new': through, 'Cursor::new': through})
