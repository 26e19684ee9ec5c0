"""X04: hosts that keep failing are blocked, others never are.

One registration is taken as an inductive step: whatever failures are on record (every subset of the buckets around the window,
with failure counts that tell the buckets apart), the decision and the record left behind must be those of the property."""
from itertools import combinations
from .util import *
from .keys import struct_of, SVC
from engine.std import m as method
from engine.interp import Span

DL = SVC + 'download::'
HDL = DL + 'HostDenyList'
MS = 10 ** 6
NOW = 10_250                                     # ms; in the bucket 10_000 of a 1 s granularity


def x04(c):
    c.section('registering', lambda: registering(c))
    c.section('configuration', lambda: configuration(c))
    c.section('asking', lambda: asking(c))


@method('failures', 'entry_by_ref', 'entry')
def _(c):
    c.it.hosts.append(show(c.it.freeze(c.it.ctx.sstr(deref(c.args[0])))).strip('"'))
    return Native('failures of host')


for _n in ('or_default', 'or_insert_with', 'or_insert'):
    method('failures of host', _n)(lambda c: c.v)
for _n in ('value', 'into_value', 'clone'):
    method('failures of host', _n)(lambda c: c.v)
method('failures of host', 'lock')(lambda c: ok(c.it.queue))
method('failures', 'get')(lambda c: some(Native('failures of host')))


@method('blocked', 'insert')
def _(c):
    c.it.blocked.append(show(c.it.freeze(c.it.ctx.sstr(deref(c.args[0])))).strip('"'))
    return UNIT


method('blocked', 'weighted_size', 'entry_count')(lambda c: 1)
method('blocked', 'contains_key')(lambda c: (c.it.asked.append(show(c.it.freeze(c.it.ctx.sstr(deref(c.args[0])))).strip('"')), c.it.ctx.choose(('blocked',), [True, False]))[1])


def registering(c):
    def setup(it):
        it.hosts, it.blocked, it.asked = [], [], []

    def given(it):
        w, b, now = it.ctx.choose(('window and granularity',), [(3000, 1000, NOW), (2500, 1000, NOW), (1000, 1000, NOW), (500, 1000, NOW), (3000, 1000, 1500), (3000, 1000, 0)])
        it.at = now
        cur = now - now % b
        room = w // b + 1
        past = [t for t in range(cur - 4000, cur + 1, b) if t >= 0]
        subsets = [s for n in range(0, room + 1) for s in combinations(past, n)]
        it.before = it.ctx.choose(('failures on record',), subsets)
        cnt = {t: 10 ** i for i, t in enumerate(past)}
        it.win, it.b, it.cur = w, b, cur
        it.after = {t: cnt[t] for t in it.before}
        it.after[cur] = it.after.get(cur, 0) + 1
        it.expect = sum(n for t, n in it.after.items() if t >= cur - w)
        it.threshold = it.expect + it.ctx.choose(('threshold',), [0, 1])
        it.never = it.ctx.choose(('never block',), [False, True])
        T = HDL.rsplit('::', 1)[0] + '::FailureCount'
        it.queue = Vec([Struct(T, {'timestamp': t, 'failures': cnt[t]}) for t in it.before])
        slf = struct_of(c, it, HDL, time_window_millis=Span(w), bucket_size_millis=b, failure_threshold=it.threshold, never_block=Vec([Str('other.org')] + ([Str('host.org')] if it.never else [])),
                        failures=Native('failures'), blocked_hosts=Native('blocked'))
        return {'self': slf, 0: Str('source'), 1: Str('host.org')}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'registering a failure panics: {out.panic}'
        if it.hosts != ['host.org']:
            return 'host', f'the failure is registered for {it.hosts}'
        got = {}
        for e in items(it, it.queue):
            t = it.field(e, 'timestamp')
            got[t] = got.get(t, 0) + it.field(e, 'failures')
        lost = [t for t, n in it.after.items() if t >= it.cur - it.win and got.get(t) != n]
        if lost:
            return 'lost', f'failures of the last {it.win} ms are forgotten or miscounted: {lost} of {it.after} became {got}'
        if any(it.after.get(t) != n for t, n in got.items()):
            return 'invented', f'{it.after} became {got}'
        if len(got) > it.win // it.b + 1:
            return 'memory', f'{len(got)} buckets are kept for a window of {it.win // it.b}'
        want = ['host.org'] if it.expect >= it.threshold and not it.never else []
        if it.blocked != want:
            return 'blocked', f'{it.expect} failures in the window, threshold {it.threshold}{", never to be blocked" if it.never else ""}: blocked are {it.blocked}'
        return None
    c.product('a host is blocked exactly at its threshold', HDL + '::register_failure', spec, floor=150, setup=setup, given=given,
              models={'SystemTime::now': lambda it, a: it.at * MS, 'time::SystemTime::now': lambda it, a: it.at * MS},
              mmodels={'duration_since': lambda it, r, a: ok(Span(it.at * MS)) if it.at else err(Term('SystemTimeError', (), Ty('SystemTimeError')))})   # before 1970 counts as 1970


def configuration(c):
    class B:
        pass

    def setup(it):
        it.made = []

    def builder(it, a):
        b = Native('cache builder', idle=None, live=None, other=[])
        it.made.append(b)
        return b
    method('cache builder', 'time_to_idle')(lambda c2: (setattr(c2.v, 'idle', deref(c2.args[0])), c2.v)[1])
    method('cache builder', 'time_to_live')(lambda c2: (setattr(c2.v, 'live', deref(c2.args[0])), c2.v)[1])
    method('cache builder', 'max_capacity', 'weigher', 'expire_after')(lambda c2: (c2.v.other.append(c2.name), c2.v)[1])
    method('cache builder', 'eviction_listener', 'name', 'support_invalidation_closures', 'initial_capacity')(lambda c2: c2.v)
    method('cache builder', 'build')(lambda c2: Native('built', b=c2.v))

    def given(it):
        it.bucket = it.ctx.choose(('bucket',), [5000 * MS, 0, MS // 2])
        cfg = struct_of(c, it, SVC + 'config::Config', deny_list_time_window=60_000 * MS, deny_list_bucket_size=it.bucket, deny_list_threshold=20, deny_list_block_time=86_400_000 * MS, deny_list_never_block_hosts=Vec([Str('safe.org')]))
        return {0: it.std.temp_ref(cfg)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'{out.panic}'
        v = out.value
        f = lambda n: deref(it.field(v, n))
        if f('time_window_millis') != 60_000 or f('failure_threshold') != 20:
            return 'setting', f'window {f("time_window_millis")} ms, threshold {f("failure_threshold")}'
        bs = f('bucket_size_millis')
        if isinstance(bs, int) and bs < 1:
            return 'granularity', f'a granularity of {it.bucket} ns becomes {bs} ms: every failed download divides by zero'
        if it.bucket == 5000 * MS and bs != 5000:
            return 'setting', f'a granularity of 5 s becomes {bs} ms'
        if [show(it.freeze(x)).strip('"') for x in items(it, f('never_block'))] != ['safe.org']:
            return 'setting', 'the hosts never to be blocked are lost'
        fa, bl = f('failures').b, f('blocked_hosts').b
        if fa.live is not None and fa.live < 60_000 * MS or fa.idle is not None and fa.idle < 60_000 * MS or fa.other:
            return 'record', 'the record of failures is dropped within the window'
        if bl.live != 86_400_000 * MS or bl.idle is not None or bl.other:
            return 'block time', f'hosts are blocked for {bl.live} / {bl.idle} ns after use, limits: {bl.other}'
        return None
    mk = {k: builder for k in ('Cache::builder', 'moka::sync::Cache::builder', 'sync::Cache::builder', 'CacheBuilder::default')}
    c.product('the settings are used', HDL + '::from_config', spec, floor=3, setup=setup, given=given, models=mk)


def asking(c):
    def setup(it):
        it.hosts, it.blocked, it.asked = [], [], []

    def given(it):
        slf = struct_of(c, it, HDL, blocked_hosts=Native('blocked'), failures=Native('failures'))
        return {'self': slf, 0: Str('host.org')}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'{out.panic}'
        b = it.ctx.known(('blocked',))
        return None if it.asked == ['host.org'] and out.value is b else ('answer', f'blocked: {b}, asked for {it.asked}, answer {out.value}')
    c.product('only blocked hosts are refused', HDL + '::is_blocked', spec, floor=2, setup=setup, given=given)
