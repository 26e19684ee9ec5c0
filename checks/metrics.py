"""R06: metrics that were recorded are what is reported."""
from .util import *
from engine.dom import Iter, Future, Ref
from engine.std import m as method

MET = 'symbolicator_service::metrics::'
TAGS = [('kind', 'a'), ('source', 'b')]


class Stop(Exception):
    pass


# thread, kind, name, value, tags
EVENTS = [(0, 'count', 'hits', 3, ()), (1, 'count', 'hits', 4, ()), (0, 'count', 'hits', 5, tuple(TAGS[:1])), (1, 'count', 'hits', -2, tuple(TAGS)), (0, 'count', 'misses', 7, ()),
          (0, 'gauge', 'hits', 9, ()), (0, 'gauge', 'load', 10, tuple(TAGS[:1])), (1, 'gauge', 'load', 10, ()),
          (0, 'timer', 'took', 2, tuple(TAGS[1:])), (1, 'timer', 'took', 2, tuple(TAGS[1:])), (0, 'histogram', 'took', 6, tuple(TAGS[1:])), (1, 'timer', 'took', 8, ()),
          (1, 'gauge', 'load', 13, tuple(TAGS[:1])), (0, 'set', 'users', 15, ()), (0, 'set', 'users', 11, ()), (1, 'set', 'users', 11, ()), (1, 'set', 'users', 12, tuple(TAGS))]
TY = {'count': '|c', 'gauge': '|g', 'timer': '|ms', 'histogram': '|h', 'set': '|s'}
EMIT = {k: MET + f'LocalAggregator::emit_{k}' for k in TY}


def r06(c):
    c.section('reports', lambda: reports(c))
    c.section('setup', lambda: configuration(c))


def emit(c, it, ev):
    th, kind, name, value, tags = ev
    from fractions import Fraction
    v = Fraction(value) if kind in ('timer', 'histogram') else value
    it.call_def(c.w.fn(EMIT[kind]), [it.std.temp_ref(it.threads[th]), Str(name), v, it.std.temp_ref(Vec([Tup([Str(a), Str(b)]) for a, b in tags]))])


def expected(events, prefix, glob):
    """The lines of one report: {(name, type, tags): values}, values in any order; a gauge may come from any thread that set it."""
    out = {}
    for th, kind, name, value, tags in events:
        t = ','.join([*([glob[2:]] if glob else []), *(f'{a}:{b}' for a, b in tags)])
        out.setdefault(((prefix.rstrip('.') + '.' if prefix else '') + name, TY[kind], t), []).append((th, value))
    return out


def parse(line):
    """name:value[:value]|type[|#tags]"""
    head, _, tags = line.partition('|#')
    body, _, ty = head.rpartition('|')
    name, *vals = body.split(':')
    return name, '|' + ty, tags, vals


def reports(c):
    method('thread locals', 'iter')(lambda c2: Native('thread iter', n=0))
    method('aggregators', 'iter')(lambda c2: c2.it.std.temp_ref(Vec([Native('aggregator cell', n=i) for i in range(2)])))

    @method('aggregator cell', 'lock')
    def _(c2):
        return ok(c2.it.std.temp_ref(c2.it.threads[c2.v.n]))

    @method('metric sink', 'emit')
    def _(c2):
        c2.it.lines.append(show(c2.it.freeze(c2.it.ctx.sstr(deref(c2.args[0])))).strip('"'))
        return ok(1) if c2.it.works else Enum('Result', 'Err', [Term('io error', (), Ty('io::Error'))])
    method('thread builder', 'name')(lambda c2: c2.v)

    @method('thread builder', 'spawn')
    def _(c2):
        c2.it.spawned.append(c2.args[0])
        return ok(UNIT)

    def aggregator(it):
        return it.std.default_of(it, Ty(MET + 'LocalAggregator'))

    def run(it, f, a):
        base = EVENTS + [None]
        it.events = [e for e in (it.ctx.choose(('first',), EVENTS), it.ctx.choose(('second',), base), EVENTS[2] if it.ctx.choose(('third',), [False, True]) else None) if e]
        it.prefix, it.glob = it.ctx.choose(('names',), [('', ''), ('sym', ''), ('sym.', '|#env:prod'), ('', '|#env:prod')])
        it.works = it.ctx.choose(('connection',), [True, False]) if len(it.events) == 2 else True
        it.spawned, it.lines, it.rounds, it.slept = [], [], [], []
        it.threads = [default_struct(it, MET + 'LocalAggregator') for _ in range(2)]
        for e in it.events:
            emit(c, it, e)
        it.call_def(f, [Str(it.prefix), Str(it.glob), Native('metric sink')])
        if len(it.spawned) != 1:
            return None
        try:
            it.call_value(it.spawned[0], [])
        except Stop:
            pass
        return None

    def default_struct(it, ty):
        from engine.std import default_of as dflt
        return it.force(dflt(it, Ty(ty)))

    def sleep(it, a):
        it.rounds.append(it.lines)
        it.lines = []
        it.slept.append(it.force(deref(a[0])))
        if len(it.rounds) == 4:
            raise Stop()
        if len(it.rounds) == 3:
            emit(c, it, EVENTS[0])
        return UNIT

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if len(it.rounds) != 4:
            return 'anchor', f'{len(it.spawned)} threads report metrics, in {len(it.rounds)} rounds'
        msgs = []
        # rounds: before the first wait, the events, nothing, a single event
        for n, evs in enumerate(([], it.events, [], [EVENTS[0]])):
            want, got = expected(evs, it.prefix, it.glob), {}
            for l in it.rounds[n]:
                name, ty, tags, vals = parse(l)
                got.setdefault((name, ty, tags), []).extend(vals)
            if set(got) != set(want):
                msgs.append(('keys', f'round {n} reports {sorted(it.rounds[n])[:6]} after {evs}'))
                continue
            for k, vs in want.items():
                g, kind = sorted(got[k]), k[1]
                nums = [v for _, v in vs]
                good = {'|c': lambda: g == [str(sum(nums))], '|g': lambda: len(g) == 1 and g[0] in {str([v for t2, v in vs if t2 == t][-1]) for t, _ in vs},
                        '|s': lambda: g == sorted(str(x) for x in set(nums))}.get(kind, lambda: g == sorted(str(x) for x in nums))()
                if not good:
                    msgs.append(('values', f'{k} is reported as {g} after {vs}'))
        if any(not isinstance(s, int) or not 0 < s <= 60 * 10**9 for s in it.slept):
            msgs.append(('interval', f'metrics are reported every {it.slept}'))
        return msgs
    c.product('reports', MET + 'make_aggregator', spec, given=None, run=run, floor=200,
              models={'LocalAggregators::default': lambda it, a: Native('aggregators'), 'ThreadLocal::default': lambda it, a: Native('aggregators'), 'Arc::default': lambda it, a: Native('aggregators'),
                      'thread::sleep': sleep, 'Builder::new': lambda it, a: Native('thread builder'), 'thread::Builder::new': lambda it, a: Native('thread builder'),
                      'thread::spawn': lambda it, a: it.spawned.append(a[0]) or UNIT})


def configuration(c):
    """Prefix and tags of the configuration are those of all metrics; durations are reported in milliseconds."""
    method('statsd builder', 'with_tag')(lambda c2: (c2.it.tagged.append(tuple(show(c2.it.freeze(c2.it.ctx.sstr(deref(x)))).strip('"') for x in c2.args)), c2.v)[1])
    method('statsd builder', 'build')(lambda c2: Native('statsd client'))
    method('udp socket', 'set_nonblocking')(lambda c2: ok(UNIT))
    method('addresses', 'to_socket_addrs')(lambda c2: ok(Iter([Term('address', (i,), Ty('SocketAddr')) for i in range(c2.v.n)])))

    def setup(it):
        it.tagged, it.made, it.kept = [], [], []

    def given(it):
        it.tags = it.ctx.choose(('tags',), [(), (('env', 'prod'),), (('env', 'prod'), ('host', 'a'))])
        return {'prefix': Str('sym'), 'host': Native('addresses', n=1), 'tags': Map([[Str(k), Str(v)] for k, v in it.tags])}

    def make(it, a):
        it.made.append(tuple(show(it.freeze(it.ctx.sstr(deref(x)))).strip('"') for x in a[:2]) + (it.freeze(deref(a[2])),))
        return Native('aggregators')

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        want = ('sym', '|#' + ','.join(f'{k}:{v}' for k, v in it.tags) if it.tags else '')
        if len(it.made) != 1 or it.made[0][:2] != want:
            return 'tags', f'metrics are made with {it.made} instead of {want}'
        if sorted(it.tagged) != sorted(it.tags):
            return 'tags', f'the client has the tags {it.tagged} instead of {list(it.tags)}'
        if len(it.kept) != 1:
            return 'anchor', 'the client is not kept'
    c.product('setup', MET + 'configure_statsd', spec, given=given, setup=setup, opaque={'make_aggregator': make}, floor=3,
              models={'UdpSocket::bind': lambda it, a: ok(Native('udp socket')), 'net::UdpSocket::bind': lambda it, a: ok(Native('udp socket')),
                      'BufferedUdpMetricSink::from': lambda it, a: ok(Native('udp sink')), 'QueuingMetricSink::from': lambda it, a: Native('queue sink'),
                      'StatsdClient::builder': lambda it, a: Native('statsd builder')},
              mmodels={'set': lambda it, recv, a: it.kept.append(deref(a[0])) or ok(UNIT)})

    def took(it, a, out):
        from fractions import Fraction
        if out.panic:
            return 'panic', out.panic
        v = it.force(out.value)
        d = it.d
        if Fraction(v) != Fraction(d, 10**6):
            return 'unit', f'{d} ns are reported as {show(v)} ms'
    dur = [d for (t, n), l in c.w.methods.items() if n == 'into_value' and 'Duration' in str(t) for _, d in l]
    c.floor('durations are reported', len(dur), 1)

    def gdur(it):
        it.d = it.ctx.choose(('duration',), [0, 1, 1_500_000, 10**9, 3600 * 10**9])
        return {'self': it.d}
    for d in dur:
        c.product('durations', d, took, given=gdur, floor=5)


# ------------------------------------------------------------------ R07
FUT = 'symbolicator_service::utils::futures::'
DLM = 'symbolicator_service::download::'
END = 'symbolicator::endpoints::metrics::'


def r07(c):
    c.section('measured work', lambda: measured(c))
    c.section('statuses', lambda: statuses(c))
    c.section('abandoned work', lambda: abandoned(c))
    c.section('clean-up', lambda: cleanups(c))
    c.section('downloads', lambda: transfers(c))
    c.section('responses', lambda: responses(c))


def name(it, v):
    return show(it.freeze(deref(v)))


def measured(c):
    """The work is done once, when it is awaited, and its outcome is the outcome; the status is asked about exactly that."""
    for fn, at in ((FUT + 'measure', 2), (DLM + 'measure_download_time', 1)):
        def run(it, f, a, at=at):
            it.ran, it.about = [], []

            def work():
                it.ran.append(1)
                return it.out
            it.out = it.ctx.choose(('outcome',), ['Ok', 'Err'])
            it.out = Enum('Result', it.out, [Term(f'the {it.out} of the work', (), Ty('Output'))])

            def about(args):
                it.about.append(name(it, args[0]))
                return Str('status')
            args = [Str('task'), Native('status', call=about), Future(work)] if at == 2 else [Str('source'), Future(work)]
            fut = it.call_def(f, args)
            it.early = len(it.ran)
            return it.await_value(fut)

        def spec(it, a, out):
            if out.panic:
                return 'panic', out.panic
            r = name(it, out.value)
            if it.early or len(it.ran) != 1:
                return 'work', f'the work is done {len(it.ran)} times, {it.early} of them before it is awaited'
            if r != name(it, it.out):
                return 'outcome', f'the outcome of work that ends with {name(it, it.out)} is {r}'
            if any(x != name(it, it.out) for x in it.about):
                return 'status', f'the status is that of {it.about}'
        c.product('measured work', fn, spec, run=run, floor=2)


def statuses(c):
    want = {'ok': lambda o, i: 'ok', 'result': lambda o, i: 'ok' if o == 'Ok' else 'err', 'timed': lambda o, i: 'ok' if o == 'Ok' else 'timeout',
            'timed_result': lambda o, i: 'timeout' if o == 'Err' else 'ok' if i == 'Ok' else 'err'}
    for n, w in want.items():
        def run(it, f, a, n=n):
            it.outer = it.ctx.choose(('outer',), ['Ok', 'Err'])
            it.inner = it.ctx.choose(('inner',), ['Ok', 'Err']) if it.outer == 'Ok' and n == 'timed_result' else None
            x = Term('value', (), Ty('T'))
            v = Enum('Result', it.outer, [Enum('Result', it.inner, [x]) if it.inner else x])
            return it.call_def(f, [it.std.temp_ref(v)])

        def spec(it, a, out, n=n, w=w):
            if out.panic:
                return 'panic', out.panic
            r = name(it, out.value).strip('"')
            return None if r == w(it.outer, it.inner) else ('status', f'{it.outer}({it.inner or ""}) has the status {r} according to {n}')
        c.product('statuses', FUT + 'm::' + n, spec, run=run, floor=1)


def drop_of(c, what):
    d = [d for (t, n), l in c.w.methods.items() if n == 'drop' and str(t) == what for _, d in l]
    c.floor('clean-up of ' + what.split('::')[-1], len(d), 1)
    return d


def poll_of(c, what):
    d = [d for (t, n), l in c.w.methods.items() if n == 'poll' and str(t) == what for _, d in l]
    c.floor('poll of ' + what.split('::')[-1], len(d), 1)
    return d


def pinned(it, recv, a):
    return it.call_value(a[0], [deref(recv) if not isinstance(recv, Ref) else recv])


PINS = {'map_unchecked_mut': pinned, 'get_unchecked_mut': lambda it, recv, a: recv, 'as_mut': lambda it, recv, a: recv}


def abandoned(c):
    """A spawned task that nobody waits for anymore is stopped; until then it goes on, and its outcome is handed on."""
    T = FUT + 'CancelOnDrop'
    method('task', 'abort')(lambda c2: (c2.it.log.append('aborted'), UNIT)[1])
    method('task', 'poll')(lambda c2: (c2.it.log.append(('polled', name(c2.it, c2.args[0]))), Term('what the task says', (), Ty('Poll')))[1])
    method('task', 'poll_unpin')(lambda c2: (c2.it.log.append(('polled', name(c2.it, c2.args[0]))), Term('what the task says', (), Ty('Poll')))[1])

    def make(it):
        it.log = []
        return it.call_def(c.w.fn(T + '::new'), [Native('task')])

    def dropped(it, f, a):
        v = make(it)
        it.early = list(it.log)
        return it.call_def(f, [it.std.temp_ref(v)])

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if it.early:
            return 'early', f'the task is touched before anyone gave it up: {it.early}'
        return None if 'aborted' in it.log else ('goes on', 'a task that was given up goes on')
    for d in drop_of(c, T):
        c.product('abandoned', d, spec, run=dropped, floor=1)

    def polled(it, f, a):
        return it.call_def(f, [it.std.temp_ref(make(it)), it.std.temp_ref(Term('context', (), Ty('Context')))])

    def spec2(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if it.log != [('polled', 'context')]:
            return 'polled', f'waiting for a task does {it.log}'
        return None if name(it, out.value) == 'what the task says' else ('outcome', f'the outcome of the task is {name(it, out.value)}')
    for d in poll_of(c, T):
        c.product('waiting', d, spec2, run=polled, floor=1, mmodels={'CancelOnDrop.' + k: v for k, v in PINS.items()})


def cleanups(c):
    """What is to be done at the end is done once, and not before."""
    T = FUT + 'CallOnDrop'

    def run(it, f, a):
        it.called = []

        def call(args):
            it.called.append(1)
            return UNIT
        v = it.call_def(c.w.fn(T + '::new'), [Native('callback', call=call)])
        it.early = len(it.called)
        return it.call_def(f, [it.std.temp_ref(v)])

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        return None if (it.early, len(it.called)) == (0, 1) else ('calls', f'it is called {len(it.called)} times, {it.early} of them too early')
    for d in drop_of(c, T):
        c.product('clean-up', d, spec, run=run, floor=1)


def transfers(c):
    """Measuring a download never fails, however short it was and whatever was transferred."""
    T = DLM + 'MeasureSourceDownloadGuard'
    for d in drop_of(c, T):
        def run(it, f, a):
            it.took = it.ctx.choose(('took',), [0, 999, 10**6, 3600 * 10**9])
            it.sent = it.ctx.choose(('sent',), [0, 1, 2**64 - 1])
            v = it.call_def(c.w.fn(T + '::new'), [Str('task'), Str('source')])
            r = it.std.temp_ref(v)
            it.call_def(c.w.fn(T + '::add_bytes_transferred'), [r, it.sent])
            it.call_def(c.w.fn(T + '::set_streams'), [r, 3])
            return it.call_def(f, [r])

        def spec(it, a, out):
            if out.panic:
                return 'panic', f'a download of {it.sent} bytes in {it.took} ns: {out.panic}'
        c.product('downloads', d, spec, run=run, floor=12, models={'Instant::now': lambda it, a: Native('stopwatch')})
    method('stopwatch', 'elapsed')(lambda c2: c2.it.took)


def responses(c):
    """The answer to a request is what the endpoint says, when it says it."""
    method('endpoint', 'call')(lambda c2: (c2.it.log.append(('called', name(c2.it, c2.args[0]))), Native('answer'))[1])
    method('endpoint', 'poll_ready')(lambda c2: (c2.it.log.append('asked'), Term('readiness', (), Ty('Poll')))[1])
    method('answer', 'poll')(lambda c2: (c2.it.log.append(('polled', name(c2.it, c2.args[0]))), c2.it.says)[1])
    method('answered', 'status')(lambda c2: Term('status', (), Ty('StatusCode')))

    def run(it, f, a):
        it.log = []
        k = it.ctx.choose(('answer',), ['Pending', 'Ok', 'Err'])
        it.says = Enum('Poll', 'Pending', []) if k == 'Pending' else Enum('Poll', 'Ready', [Enum('Result', k, [Native('answered')])])
        it.want = name(it, it.says)
        layer = it.call_def(layers[0], [it.std.temp_ref(Struct(END + 'MetricsLayer', {})), Native('endpoint')])
        s = it.std.temp_ref(layer)
        it.ready = name(it, it.call_def(readies[0], [s, it.std.temp_ref(Term('context', (), Ty('Context')))]))
        fut = it.call_def(calls[0], [s, Term('request', (), Ty('Request'))])
        return it.call_def(f, [it.std.temp_ref(fut), it.std.temp_ref(Term('context', (), Ty('Context')))])

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if it.ready != 'readiness' or it.log != ['asked', ('called', 'request'), ('polled', 'context')]:
            return 'request', f'a request does {it.log}, the endpoint is ready: {it.ready}'
        r = name(it, out.value)
        return None if r == it.want else ('answer', f'an endpoint that says {it.want} is understood as {r}')
    of = lambda t, n: [d for (x, k), l in c.w.methods.items() if k == n and str(x) == END + t for _, d in l]
    layers, calls, readies = of('MetricsLayer', 'layer'), of('MetricsService', 'call'), of('MetricsService', 'poll_ready')
    c.floor('layer', min(len(layers), len(calls), len(readies)), 1)
    for d in poll_of(c, END + 'MetricsFuture'):
        c.product('responses', d, spec, run=run, floor=3, mmodels={t + k: v for k, v in PINS.items() for t in ('MetricsFuture.', 'Future.')})
