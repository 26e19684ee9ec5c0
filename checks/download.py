"""D01-D04, X03: downloads from sources over HTTP.

The model of the network: every request may fail, may be answered with any status and any content range, the body of an
answer may break off; every timer may elapse; every write may fail."""
from .util import *
from .keys import struct_of, T_CERR, SVC
from .js import cerr
from engine.ext import E_IO
from engine.std import m as method, EXT_ENUMS
from engine.dom import Future

DL = SVC + 'download::'
STATUS = {'CONTINUE': 100, 'SWITCHING_PROTOCOLS': 101, 'PROCESSING': 102, 'OK': 200, 'CREATED': 201, 'ACCEPTED': 202, 'NON_AUTHORITATIVE_INFORMATION': 203, 'NO_CONTENT': 204, 'RESET_CONTENT': 205,
          'PARTIAL_CONTENT': 206, 'MULTI_STATUS': 207, 'ALREADY_REPORTED': 208, 'IM_USED': 226, 'MULTIPLE_CHOICES': 300, 'MOVED_PERMANENTLY': 301, 'FOUND': 302, 'SEE_OTHER': 303, 'NOT_MODIFIED': 304,
          'USE_PROXY': 305, 'TEMPORARY_REDIRECT': 307, 'PERMANENT_REDIRECT': 308, 'BAD_REQUEST': 400, 'UNAUTHORIZED': 401, 'PAYMENT_REQUIRED': 402, 'FORBIDDEN': 403, 'NOT_FOUND': 404,
          'METHOD_NOT_ALLOWED': 405, 'NOT_ACCEPTABLE': 406, 'PROXY_AUTHENTICATION_REQUIRED': 407, 'REQUEST_TIMEOUT': 408, 'CONFLICT': 409, 'GONE': 410, 'LENGTH_REQUIRED': 411,
          'PRECONDITION_FAILED': 412, 'PAYLOAD_TOO_LARGE': 413, 'URI_TOO_LONG': 414, 'UNSUPPORTED_MEDIA_TYPE': 415, 'RANGE_NOT_SATISFIABLE': 416, 'EXPECTATION_FAILED': 417, 'IM_A_TEAPOT': 418,
          'MISDIRECTED_REQUEST': 421, 'UNPROCESSABLE_ENTITY': 422, 'LOCKED': 423, 'FAILED_DEPENDENCY': 424, 'UPGRADE_REQUIRED': 426, 'PRECONDITION_REQUIRED': 428, 'TOO_MANY_REQUESTS': 429,
          'REQUEST_HEADER_FIELDS_TOO_LARGE': 431, 'UNAVAILABLE_FOR_LEGAL_REASONS': 451, 'INTERNAL_SERVER_ERROR': 500, 'NOT_IMPLEMENTED': 501, 'BAD_GATEWAY': 502, 'SERVICE_UNAVAILABLE': 503,
          'GATEWAY_TIMEOUT': 504, 'HTTP_VERSION_NOT_SUPPORTED': 505, 'VARIANT_ALSO_NEGOTIATES': 506, 'INSUFFICIENT_STORAGE': 507, 'LOOP_DETECTED': 508, 'NOT_EXTENDED': 510,
          'NETWORK_AUTHENTICATION_REQUIRED': 511}
EXT_ENUMS['StatusCode'] = list(STATUS)
for _n, _k in (('is_informational', 1), ('is_success', 2), ('is_redirection', 3), ('is_client_error', 4), ('is_server_error', 5)):
    method('StatusCode', _n)(lambda c, k=_k: STATUS[c.v.variant] // 100 == k)
method('StatusCode', 'as_u16')(lambda c: STATUS[c.v.variant])
method('StatusCode', 'to_string', 'as_str', 'canonical_reason')(lambda c: Str(f'{STATUS[c.v.variant]} {c.v.variant}'))
T_REQ = Ty('reqwest::Error')
T_DUR = Ty('Duration')
ERR_ARG = {'Timeout': lambda: [Term('other timeout', (), T_DUR)], 'NotFound': list, 'InternalError': list}


def status(n):
    return Enum('StatusCode', n, [])


def failure(it, kind, reason='reason'):
    return cerr(it, kind, *ERR_ARG.get(kind, lambda: [Str(reason)])())


def expected(name):
    """The result a status means."""
    n = STATUS[name]
    return 'Ok' if n // 100 == 2 else 'PermissionDenied' if n in (401, 403, 302) else 'NotFound' if n // 100 == 4 else 'DownloadError'


def kind_of(it, r):
    r = it.force(r)
    if r.variant == 'Ok':
        return 'Ok'
    e = it.force(deref(r.fields[0]))
    if isinstance(e, Term) and e.ty in (E_IO, T_REQ):
        # the error type of an inner block follows from where its result goes: the error is converted
        return 'InternalError' if e.ty == E_IO else 'DownloadError'
    return e.variant


# ------------------------------------------------------------------ the network
def http_answer(it, n, statuses):
    """The answer to request n: ('error',) or (status, content range)."""
    kinds = ['error'] + statuses
    s = it.ctx.choose(('answer', n), kinds)
    if s == 'error':
        return s, None
    rng = it.ctx.choose(('content range', n), it.ranges) if s == 'PARTIAL_CONTENT' else None
    return s, rng


@method('http client', 'execute')
def _(c):
    it, req = c.it, deref(c.args[0])

    def run():
        n = len(it.requests)
        s, rng = http_answer(it, n, it.statuses if n == 0 else it.later)
        if s == 'PARTIAL_CONTENT' and req.range is None:
            raise Infeasible()          # a server answers with a part only if asked for one
        it.requests.append(Native('sent', range=req.range, s=s, rng=rng, rng0=rng, timers=list(it.ctx.timers), url=req.url, to=None))
        if s == 'error':
            return err(Term('http error', (n,), T_REQ))
        it.responses[n] = Native('http response', n=n, s=s, rng=rng, sent=it.requests[n])
        return ok(it.responses[n])
    return Future(run)


method('http builder', 'build_split')(lambda c: Tup([Native('http client'), ok(Native('http request', range=None, url=Str('url'))) if c.it.ctx.choose(('request can be built',), [True, False])
                                                     else err(Term('http error', ('build',), T_REQ))]))
method('http request', 'method')(lambda c: c.it.ctx.choose(('method',), [Term('Method::GET', (), Ty('Method')), Term('Method::POST', (), Ty('Method'))]))
method('http request', 'body')(lambda c: none() if c.it.ctx.choose(('body',), [False, True]) is False else some(Term('request body', (), Ty('Body'))))
method('http request', 'url')(lambda c: c.v.url)
method('http request', 'try_clone')(lambda c: some(Native('http request', range=c.v.range, url=c.v.url)))
method('http request', 'headers_mut')(lambda c: Native('request headers', req=c.v))


@method('request headers', 'insert')
def _(c):
    c.v.req.range = c.it.freeze(deref(c.args[1]))
    return none()


method('http response', 'status')(lambda c: status(c.v.s))
method('http response', 'headers')(lambda c: Native('answer headers', resp=c.v))


@method('answer headers', 'get')
def _(c):
    it, r = c.it, c.v.resp
    if 'content_range' not in show(it.freeze(deref(c.args[0]))).lower().replace('-', '_'):
        return none()
    there = it.ctx.choose(('header', r.n), [True, False]) if r.rng is None else r.rng != 'none'
    return some(Native('header value', resp=r)) if there else none()


@method('header value', 'to_str')
def _(c):
    r = c.v.resp
    if r.rng is None and not c.it.ctx.choose(('text', r.n), [True, False]):
        return err(Term('ToStrError', (), Ty('ToStrError')))
    return ok(Str((Term('header text', (r.n,), T_STR),)))


method('http response', 'content_length')(lambda c: Term('content length', (c.v.n,), Ty('Option', Ty('u64'))))
method('http response', 'bytes_stream')(lambda c: Native('body', resp=c.v, pos=0))
method('body', 'map_err')(lambda c: Native('body', resp=c.v.resp, pos=0, f=c.args[0]))


@method('body', 'next', 'try_next')
def _(c):
    it, b, nm = c.it, c.v, c.name

    def run():
        n = b.resp.n
        r = it.ctx.choose(('body', n, b.pos), ['chunk', 'end', 'error'] if b.pos == 0 else ['end', 'error'] if n == 0 else ['end'])
        b.pos += 1
        b.resp.sent.body_timers = list(it.ctx.timers)
        if r == 'end':
            b.resp.sent.ended = True
            return none() if nm == 'next' else ok(none())
        if r == 'error':
            b.resp.sent.broke = True
            e = Term('http error', ('body', n), T_REQ)
            e = it.call_value(b.f, [e]) if getattr(b, 'f', None) is not None else e
            return some(err(e)) if nm == 'next' else err(e)
        b.resp.sent.chunks = b.pos
        ch = Term('chunk', (n, b.pos - 1), Ty('Bytes'))
        return some(ok(ch)) if nm == 'next' else ok(some(ch))
    return Future(run)


# ------------------------------------------------------------------ destinations
def sink(it, to):
    return Native('sink', to=to)


@method('sink', 'write_buf')
def _(c):
    it, to, d = c.it, c.v.to, c.it.freeze(deref(c.args[0]))

    def run():
        it.writes.append((to, d))
        if it.ctx.choose(('write', len(it.writes)), [True, False]):
            return ok(UNIT)
        it.failed.append('write')
        return err(Term('io::Error::new', (Term('ErrorKind::PermissionDenied', (), Ty('ErrorKind')), Str('write')), E_IO))
    return Future(run)


method('sink', 'as_mut')(lambda c: c.v)
method('destination', 'try_into_streams')(lambda c: Future(lambda: ok(Native('streams')) if c.it.ctx.choose(('parallel writing',), [True, False]) else err(c.v)))
method('destination|streams', 'into_write')(lambda c: sink(c.it, 'file'))


@method('streams', 'set_size')
def _(c):
    it, n = c.it, c.it.freeze(deref(c.args[0]))

    def run():
        it.sizes.append(n)
        if it.ctx.choose(('resize',), [True, False]):
            return ok(UNIT)
        it.failed.append('resize')
        return err(Term('io::Error::new', (Term('ErrorKind::PermissionDenied', (), Ty('ErrorKind')), Str('resize')), E_IO))
    return Future(run)


method('streams', 'stream')(lambda c: sink(c.it, tuple(c.it.freeze(deref(x)) for x in c.args)))
method('streams', 'flush')(lambda c: Future(lambda: ok(UNIT)))
method('unordered', 'push')(lambda c: c.v.fs.append(c.args[0]) or UNIT)
method('unordered', 'len')(lambda c: len(c.v.fs))
method('unordered', 'is_empty')(lambda c: not c.v.fs)


def pull(it, u):
    f = u.fs.pop(0)
    while isinstance(f, Enum) and f.variant in ('Left', 'Right'):
        f = deref(f.fields[0])
    return it.await_value(f)


@method('unordered', 'next', 'try_next')
def _(c):
    it, u, nm = c.it, c.v, c.name

    def run():
        if not u.fs:
            return none() if nm == 'next' else ok(none())
        r = it.force(pull(it, u))
        if nm == 'next':
            return some(r)
        return ok(some(r.fields[0])) if r.variant == 'Ok' else r
    return Future(run)


EXT_ENUMS.setdefault('Either', ['Left', 'Right'])


# ------------------------------------------------------------------ D01, D03, X03: one download over HTTP
def net_hooks(c):
    def split(it, a):
        it.rest = it.force(deref(a[0]))
        k = it.ctx.choose(('parts',), it.max_parts)
        it.parts = [Struct(DL + 'partial::Range', {'start': Term('start', (i,), Ty('u64')), 'end': Term('end', (i,), Ty('u64'))}) for i in range(k)]
        return it.method(it.std.temp_ref(Vec(list(it.parts))), 'into_iter', [])
    guard = lambda it, a: Native('measure')
    method('measure', 'done', 'add_bytes_transferred', 'set_streams')(lambda c: UNIT)
    method('measure', 'creation_time')(lambda c: UNIT)
    return {'split': split,
            'MeasureSourceDownloadGuard::new': guard, 'measure_download_time': lambda it, a: a[1], 'measure': lambda it, a: a[2],
            'Range::size': lambda it, a: Term('size', (it.freeze(it.field(it.force(deref(a[0])), 'start')), it.freeze(it.field(it.force(deref(a[0])), 'end'))), Ty('u64')),
            'content_length_timeout': lambda it, a: Term('streaming timeout', (it.freeze(deref(a[0])), it.freeze(deref(a[1]))), T_DUR),
            'CacheError::download_error': lambda it, a: Enum(T_CERR.name, 'DownloadError', [Str((Term('cause', (it.freeze(deref(a[0])),), T_STR),))]), 'CancelOnDrop::new': lambda it, a: a[0]}


def header_text(it, recv, a):
    """A header's text is parsed as the range the server answered with."""
    v = it.freeze(it.ctx.sstr(deref(recv)))
    v = v.parts[0] if isinstance(v, Str) and len(v.parts) == 1 else v
    if not isinstance(v, Term) or v.op != 'header text':
        return NotImplemented
    n = it.responses[v.args[0]]
    if n.rng == 'invalid':
        return err(Enum(DL + 'partial::InvalidBytesRange', 'Malformed', []))
    return ok(n.rng if isinstance(n.rng, Struct) else it.answer_range(n))


def http_models():
    return {'HeaderValue::from_str': lambda it, a: ok(a[0]), 'FuturesUnordered::new': lambda it, a: Native('unordered', fs=[])}


def http(c, what, statuses, later, ranges, parts, floor, name):
    def answer_range(it, n):
        """The range of a part's answer; n.rng says how it relates to the request."""
        i = n.n
        num = lambda w, k=i: Term(w, (k,), Ty('u64'))
        f = {'start': 0, 'end': num('got end'), 'total_size': num('total', 0)}
        if n.rng == 'empty':
            f = {'start': 0, 'end': 0, 'total_size': 0}
        elif i > 0:
            r = part_of(it, n.sent.range)
            f['start'], f['end'] = it.parts[r].fields['start'], it.parts[r].fields['end']
        elif it.eq(f['total_size'], 0):
            raise Infeasible()
        if n.rng == 'other':
            w = it.ctx.choose(('other', i), ['start'] if i == 0 else ['start', 'end', 'total_size'])
            was, f[w] = f[w], num('other ' + w)
            if it.eq(was, f[w]):
                raise Infeasible()
        n.rng = Struct(DL + 'partial::BytesContentRange', f)
        n.rng_fields = f
        n.sent.range_answered = f
        return n.rng

    def given(it):
        it.requests, it.writes, it.sizes, it.failed, it.parts, it.responses = [], [], [], [], [], {}
        it.statuses, it.later, it.ranges, it.max_parts = statuses, later, ranges, parts
        it.answer_range = lambda n: answer_range(it, n)
        tm = struct_of(c, it, SVC + 'utils::http::DownloadTimeouts', **{f: Term('timeout ' + f, (), T_DUR) for f in ('connect', 'head', 'streaming', 'max_download')})
        return {'source_name': Str('source'), 'builder': Native('http builder'), 'timeouts': it.std.temp_ref(tm), 'destination': Native('destination')}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        return [m for m in judge(it, a, out) if m[0] in what]

    c.product(name, DL + 'download_reqwest', spec, given=given, floor=floor, opaque=net_hooks(c), models=http_models(), mmodels={'parse': header_text, 'send': lambda it, r, a: deref(r) if isinstance(deref(r), Future) else NotImplemented}, k=3)


def part_of(it, rng):
    """The number of the part a range header asks for."""
    t = show(rng)
    for i in range(len(it.parts)):
        if f'start({i})' in t and f'end({i})' in t:
            return i
    return None



def judge(it, a, out):
    """What is wrong with the result of a download, by key."""
    k, reqs, msgs = kind_of(it, out.value), it.requests, []
    story = f"{[(r.s, ask(r), rng(r)) for r in reqs]}, writes {it.writes}, failed {it.failed}"
    elapsed = [e[1] for e in it.ctx.trace if e[0] == 'elapsed']
    built = it.ctx.known(('request can be built',)) is not False
    # which requests an answer is part of the result
    bad = lambda w, m: msgs.append((w, f'{m}: {k} for {story}'))
    whole = [r for r in reqs if r.s != 'error' and STATUS[r.s] // 100 == 2]
    fallback = lambda r: r is reqs[0] and r.range is not None and (r.s == 'RANGE_NOT_SATISFIABLE' or rng(r) in ('invalid', 'other') or r.s == 'PARTIAL_CONTENT' and rng(r) == 'none')
    causes = set()
    if not built:
        causes.add('DownloadError')
    if elapsed:
        causes.add('Timeout')
    if it.failed:
        causes.add('InternalError')
    for r in reqs:
        later = r is not reqs[-1]
        if r.s == 'error' or getattr(r, 'broke', False):
            causes.add('DownloadError')
        elif STATUS[r.s] // 100 != 2 and not (fallback(r) and later):
            causes.add(expected(r.s))
        elif r is not reqs[0] and r.range is not None and rng(r) != 'requested' or r is reqs[0] and rng(r) in ('other', 'none', 'invalid') and not later:
            causes.add('DownloadError')
    if k == 'Ok':
        if causes:
            key = 'part' if len(reqs) > 1 and not causes - {'DownloadError'} and not any(r.s == 'error' or getattr(r, 'broke', False) or STATUS[r.s] // 100 != 2 for r in reqs) else 'success'
            bad(key, f'success despite {sorted(causes)}')
        elif not reqs:
            bad('success', 'success without a request')
    elif k not in causes:
        bad('failure', f'not one of {sorted(causes)}')
    elif k == 'Timeout' and not any(it.eq(it.force(deref(it.force(out.value).fields[0])).fields[0], d) for d in elapsed):
        bad('failure', 'the timeout reported is not the one that elapsed')
    if k == 'Ok' and not causes:
        first, last = reqs[0], reqs[-1]
        parted = first.range is not None and rng(first) in ('requested',) and first.s == 'PARTIAL_CONTENT'
        if rng(first) == 'empty':
            if it.writes or len(reqs) > 1:
                bad('contents', 'something is written for an empty file')
        elif not parted:
            if getattr(last, 'ended', False) is not True or it.sizes or [w[0] for w in it.writes] != ['file'] * len(it.writes) or [w[1] for w in it.writes] != chunks_of(it, [last]):
                bad('contents', 'the destination is not the body of the last answer')
        else:
            want = [first] + [None] * len(it.parts)
            for r in reqs[1:]:
                i = part_of(it, r.range) if r.range is not None else None
                if i is None or want[i + 1] is not None:
                    bad('part', 'an unexpected request')
                else:
                    want[i + 1] = r
            if None in want:
                bad('part', 'a part is never requested')
            else:
                if [show(x) for x in it.sizes] != ['total(0)']:
                    bad('part', f'the file is resized to {it.sizes}')
                for i, r in enumerate(want):
                    f = r.range_answered
                    at = (0 if i == 0 else it.parts[i - 1].fields['start'], Term('size', (f['start'], f['end']), Ty('u64')))
                    mine = [w for w in it.writes if w[1] in chunks_of(it, [r])]
                    if not getattr(r, 'ended', False) or [w[1] for w in mine] != chunks_of(it, [r]) or any(w[0] != at for w in mine):
                        bad('part', f'the answer {i} is written to {[w[0] for w in mine]} instead of {at}')
                if len(it.writes) != len(chunks_of(it, reqs)):
                    bad('part', 'something else is written')
    if reqs and reqs[0].range is not None and not show(reqs[0].range).strip('"').startswith('bytes=0-'):
        bad('part', f'the first range asked for is {show(reqs[0].range)}')
    for r in reqs:
        if not any(show(t) == 'timeout head' for t in r.timers):
            bad('head timeout', f'a request is sent under {r.timers}')
        if hasattr(r, 'body_timers'):
            i = reqs.index(r)
            f = getattr(r, 'range_answered', None)
            n = it.force(Term('content length', (i,), Ty('Option', Ty('u64')))) if f is None else some(f['total_size'])
            want = 'timeout max_download' if n.variant == 'None' else show(Term('streaming timeout', (n.fields[0], Term('timeout streaming', (), T_DUR)), T_DUR))
            if want not in [show(t) for t in r.body_timers]:
                bad('body timeout', f'a body is read under {r.body_timers} instead of {want}')
    return msgs


def ask(r):
    return 'range' if r.range is not None else 'all'


def rng(r):
    return getattr(r, 'rng0', r.rng)


def chunks_of(it, rs):
    return [Term('chunk', (it.requests.index(r), i), Ty('Bytes')) for r in rs for i in range(getattr(r, 'chunks', 0))]



# ------------------------------------------------------------------ D01, D04: the kinds of sources
NAME = {'x-good': True, 'bad name': False}


@method('client', 'get', 'post', 'request')
def _(c):
    return Native('req', client=c.v.n, url=c.it.freeze(deref(c.args[-1])), headers=[], bearer=None, verb=c.name)


@method('req', 'header')
def _(c):
    k, v = (c.it.force(deref(x)) for x in c.args)
    k = k.name if isinstance(k, Native) else show(c.it.freeze(k)).strip('"')
    c.v.headers.append((k.lower().split('::')[-1].replace('_', '-'), show(c.it.freeze(v)).strip('"')))
    return c.v


@method('req', 'headers')
def _(c):
    for k, v in c.it.force(deref(c.args[0])).items:
        c.v.headers.append((show(k), show(v)))
    return c.v


@method('req', 'bearer_auth')
def _(c):
    c.v.bearer = show(c.it.freeze(deref(c.args[0]))).strip('"')
    return c.v


def header_name(it, a):
    n = show(it.freeze(it.force(deref(a[0])))).strip('"')
    if n not in NAME:
        return ok(Native('header name', name=n))
    return ok(Native('header name', name=n)) if NAME[n] else err(Term('InvalidHeaderName', (), Ty('InvalidHeaderName')))


SEND_HOOKS = {'mmodels': {'send': lambda it, r, a: deref(r) if isinstance(deref(r), Future) else NotImplemented}, 'models': {'HeaderName::from_bytes': header_name}}


def captured(it, a):
    """download_reqwest: notes the request."""
    def run():
        it.sent.append(deref(a[1]))
        r = it.ctx.choose(('download',), ['Ok', 'NotFound', 'DownloadError'])
        it.result = ok(UNIT) if r == 'Ok' else failure(it, r)
        return it.result
    return Future(run)


def timeouts(c, it):
    return struct_of(c, it, SVC + 'utils::http::DownloadTimeouts', **{f: Term('timeout ' + f, (), T_DUR) for f in ('connect', 'head', 'streaming', 'max_download')})


def sources(c, what):
    def run(name, fn, given, spec, floor, **kw):
        def setup(it):
            it.sent, it.result, it.failed, it.writes = [], None, [], []

        def only(it, a, out):
            if out.panic:
                return 'panic', out.panic
            return [m for m in spec(it, a, out) if m[0] in what]
        hooks = kw.pop('opaque', {})
        c.product(name, fn, only, given=given, setup=setup, floor=floor, opaque={**net_hooks(c), 'download_reqwest': captured, **hooks}, mmodels={**SEND_HOOKS['mmodels'], **kw.pop('mmodels', {})},
                  models={**SEND_HOOKS['models'], **kw.pop('models', {})}, **kw)

    def outcome(it, out, fail=None):
        k = kind_of(it, out.value)
        if fail is not None:
            return [('source result', f'{k} instead of {fail}')] if k != fail or it.sent else []
        if len(it.sent) != 1:
            return [('source result', f'{len(it.sent)} downloads are made, {k}')]
        return [] if repr(it.freeze(out.value)) == repr(it.freeze(it.result)) else [('source result', f'{show(it.freeze(out.value))} although the download ends with {show(it.freeze(it.result))}')]

    # -- HTTP
    def http_given(it):
        ch = lambda *k: it.ctx.choose(k[:-1], k[-1])
        it.no_certs = ch('accept invalid certs', [False, True])
        own = ch('source headers', [[], [('x-good', 'v1')], [('bad name', 'v1'), ('x-good', 'v2')]])
        file = ch('file headers', [[], [('file-header', 'v3')]])
        it.own, it.file = own, file
        it.url = ch('url', [True, False])
        hm = lambda hs: Map([[Str(k), Str(v)] for k, v in hs])
        src = Struct(SRC + 'sources::HttpSourceConfig', {'accept_invalid_certs': it.no_certs, 'headers': hm(own)})
        f = Struct(T_FILE(c, 'HttpRemoteFile'), {'source': src, 'headers': hm(file)})
        slf = struct_of(c, it, DL + 'http::HttpDownloader', client=Native('client', n='client'), no_ssl_client=Native('client', n='no_ssl'), timeouts=timeouts(c, it))
        return {'self': slf, 'source_name': Str('source'), 'file_source': it.std.temp_ref(f), 'destination': Native('destination')}

    def http_spec(it, a, out):
        if not it.url:
            return outcome(it, out, 'NotFound')
        msgs = outcome(it, out)
        for r in it.sent:
            if r.client != ('no_ssl' if it.no_certs else 'client'):
                msgs.append(('certificates', f'{r.client} is used, accept_invalid_certs: {it.no_certs}'))
            want = sorted([(k, v) for k, v in it.own if NAME[k]] + it.file)
            got = sorted(h for h in r.headers if h[0] != 'user-agent')
            if want != got or r.bearer:
                msgs.append(('headers', f'the headers {got} are sent for {want}'))
            if 'the url' not in show(r.url):
                msgs.append(('source result', f'{show(r.url)} is fetched'))
        return msgs
    run('http source', DL + 'http::HttpDownloader::download_source', http_given, http_spec, 12,
        opaque={'HttpRemoteFile::url': lambda it, a: ok(Term('the url', (), Ty('Url'))) if it.url else err(Term('url error', (), Ty('url::ParseError')))})

    # -- Sentry
    def sentry_given(it):
        it.creds = it.ctx.choose(('use credentials',), [True, False])
        src = Struct(SRC + 'sources::SentrySourceConfig', {'token': Str('the token'), 'url': Term('source url', (), Ty('Url')), 'id': Str('id')})
        f = Native('sentry file', source=src)
        slf = struct_of(c, it, DL + 'sentry::SentryDownloader', client=Native('client', n='trusted'), timeouts=timeouts(c, it), propagate_traces=it.ctx.choose(('propagate traces',), [False, True]))
        return {'self': slf, 'source_name': Str('source'), 'file_source': it.std.temp_ref(Struct(SENTRY_FILE(c), {'source': src})), 'destination': Native('destination')}

    def sentry_spec(it, a, out):
        msgs = outcome(it, out)
        for r in it.sent:
            got = [h for h in r.headers if h[0] != 'user-agent']
            if r.bearer != ('the token' if it.creds else None) or got:
                msgs.append(('token', f'the token {r.bearer} and headers {got} are sent, use_credentials: {it.creds}'))
            if 'the url' not in show(r.url):
                msgs.append(('source result', f'{show(r.url)} is fetched'))
        return msgs
    run('sentry source', DL + 'sentry::SentryDownloader::download_source', sentry_given, sentry_spec, 4,
        opaque={'SentryRemoteFile::url': lambda it, a: Term('the url', (), Ty('Url')), 'SentryRemoteFile::use_credentials': lambda it, a: it.creds})

    # -- GCS
    def gcs_given(it):
        key = Native('gcs key')
        it.key = key
        src = Struct(SRC + 'sources::GcsSourceConfig', {'bucket': Str('the bucket'), 'source_key': key})
        slf = struct_of(c, it, DL + 'gcs::GcsDownloader', client=Native('client', n='restricted'), timeouts=timeouts(c, it))
        return {'self': slf, 'source_name': Str('source'), 'file_source': it.std.temp_ref(Struct(T_FILE(c, 'GcsRemoteFile'), {'source': src})), 'destination': Native('destination')}

    def token(it, a):
        it.asked = deref(a[1])
        it.token = it.ctx.choose(('token',), ['Ok', 'DownloadError', 'InternalError'])
        return Future(lambda: ok(Struct(SVC + 'utils::gcs::GcsToken', {'bearer_token': Str('Bearer secret'), 'expires_at': Term('expires', (), Ty('DateTime'))})) if it.token == 'Ok' else failure(it, it.token))

    def gcs_url(it, a):
        it.where = [show(it.freeze(deref(x))).strip('"') for x in a]
        it.url = it.ctx.choose(('url',), [True, False])
        return ok(Term('the url', (), Ty('Url'))) if it.url else err(Enum(SVC + 'utils::gcs::GcsError', 'InvalidUrl', []))

    def gcs_spec(it, a, out):
        if it.asked is not it.key:
            return [('token', 'the token of another source is used')]
        if it.token != 'Ok':
            return outcome(it, out, it.token)
        if it.where != ['the bucket', 'the key']:
            return [('source result', f'{it.where} is fetched')]
        if not it.url:
            return outcome(it, out, 'DownloadError')
        msgs = outcome(it, out)
        for r in it.sent:
            if r.headers != [('authorization', 'Bearer secret')] and [h for h in r.headers if h[0] != 'user-agent'] != [('authorization', 'Bearer secret')]:
                msgs.append(('token', f'the headers {r.headers} are sent'))
            if 'the url' not in show(r.url):
                msgs.append(('source result', f'{show(r.url)} is fetched'))
        return msgs
    run('gcs source', DL + 'gcs::GcsDownloader::download_source', gcs_given, gcs_spec, 5,
        opaque={'GcsDownloader::get_token': token, 'download_url': gcs_url, 'GcsRemoteFile::key': lambda it, a: Str('the key')})

    # -- local files
    def fs_given(it):
        slf = Struct(DL + 'filesystem::FilesystemDownloader', {})
        return {'self': slf, 'file_source': it.std.temp_ref(Struct(T_FILE(c, 'FilesystemRemoteFile'), {})), 'destination': Native('destination')}

    def fs_open(it, a):
        it.path = show(it.freeze(deref(a[0])))
        it.open = it.ctx.choose(('open',), ['Ok', 'NotFound', 'PermissionDenied'])
        return Future(lambda: ok(Native('local file')) if it.open == 'Ok' else err(Term('io::Error::new', (Term('ErrorKind::' + it.open, (), Ty('ErrorKind')), Str('open')), E_IO)))

    def copy(it, a):
        src, dst = deref(a[0]), deref(a[1])

        def go():
            it.copied = (getattr(src, 'kind', None), getattr(dst, 'kind', None))
            it.copy = it.ctx.choose(('copy',), [True, False])
            return ok(Term('copied', (), Ty('u64'))) if it.copy else err(Term('io::Error::new', (Term('ErrorKind::PermissionDenied', (), Ty('ErrorKind')), Str('copy')), E_IO))
        return Future(go)

    def fs_spec(it, a, out):
        k = kind_of(it, out.value)
        want = {'NotFound': 'NotFound', 'PermissionDenied': 'InternalError'}.get(it.open) or ('Ok' if it.copy else 'InternalError')
        if k != want or 'the path' not in it.path or it.open == 'Ok' and it.copied != ('local file', 'sink'):
            return [('source result', f'{k} instead of {want} for {it.path}')]
        return []
    if 'source result' in what:
        run('file source', DL + 'filesystem::FilesystemDownloader::download_source', fs_given, fs_spec, 4,
            opaque={'FilesystemRemoteFile::path': lambda it, a: Term('the path', (), Ty('PathBuf'))},
            models={'File::open': fs_open, 'fs::File::open': fs_open, 'io::copy': copy})


def T_FILE(c, n):
    return next(t for t in c.w.typedefs if t.startswith(SRC) and t.endswith('::' + n))


def SENTRY_FILE(c):
    return T_FILE(c, 'SentryRemoteFile')



# ------------------------------------------------------------------ D04: credentials of cloud storage
def credentials(c):
    # -- tokens for Google's storage
    def kept(slot):
        """A value of a moka cache: (entry, predicate that discards it)."""
        def insert(c2):
            it, fut, pred = c2.it, c2.args[0], c2.args[1] if len(c2.args) > 1 else None

            def go():
                it.old = it.ctx.choose(('kept',), ['nothing'] + slot(it))
                if it.old != 'nothing':
                    v = it.old_value(it.old)
                    if pred is None or not it.ctx.truth(it.call_value(pred, [it.std.temp_ref(v)])):
                        it.reused = True
                        return Native('kept value', v=v)
                it.reused = False
                return Native('kept value', v=it.await_value(fut))
            return Future(go)
        method('kept entry', 'or_insert_with_if', 'or_insert_with', 'or_try_insert_with')(insert)
    method('credentials cache', 'entry_by_ref', 'entry')(lambda c2: c2.it.keys.append(deref(c2.args[0])) or Native('kept entry'))
    method('kept value', 'into_value', 'value')(lambda c2: c2.v.v)

    def setup(it):
        it.keys, it.requested, it.reused, it.made = [], [], None, []

    def given(it):
        it.key = Native('gcs key')
        tok = lambda n: Struct(SVC + 'utils::gcs::GcsToken', {'bearer_token': Str(f'Bearer {n}'), 'expires_at': Term(n, (), Ty('DateTime'))})
        it.old_value = lambda k: failure(it, 'DownloadError') if k == 'failure' else ok(tok('old'))
        it.tok = tok
        kept(lambda it: ['token', 'failure'])
        return {'self': it.std.temp_ref(struct_of(c, it, DL + 'gcs::GcsDownloader', token_cache=Native('credentials cache'), client=Native('client', n='restricted'))), 'source_key': it.std.temp_ref(it.key)}

    def request(it, a):
        def go():
            it.requested.append(deref(a[-1]))
            it.fresh = it.ctx.choose(('new token',), [True, False])
            return ok(it.tok('new')) if it.fresh else err(Enum(SVC + 'utils::gcs::GcsError', 'InvalidUrl', []))
        return Future(go)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if [k is it.key for k in it.keys] != [True] or any(k is not it.key for k in it.requested):
            return 'token', 'the token of another source is used'
        v = it.force(out.value)
        old = it.old == 'token' and it.cmp(Term('old', (), Ty('DateTime')), it.now) >= 0
        want = 'Bearer old' if old else 'Bearer new' if it.requested and it.fresh else None
        got = show(it.freeze(it.field(it.force(v.fields[0]), 'bearer_token'))).strip('"') if v.variant == 'Ok' else None
        if not old and len(it.requested) != 1:
            return 'token', f'{len(it.requested)} new tokens are requested although the kept {it.old} cannot be used'
        if got != want:
            return 'token', f'{got} is used instead of {want}, a {it.old} is kept'

    def now(it, a):
        it.now = Term('now', (), Ty('DateTime'))
        return it.now
    c.product('gcs tokens', DL + 'gcs::GcsDownloader::get_token', spec, given=given, setup=lambda it: setup(it) or now(it, []), floor=5, opaque={'request_new_token': request},
              models={'Utc::now': now, 'chrono::Utc::now': now})

    # -- clients for Amazon's storage
    T_KEY, T_REG = T_FILE(c, 'S3SourceKey'), T_FILE(c, 'S3Region')
    PROV = next(t for t in c.w.typedefs if t.startswith(SRC) and t.endswith('::AwsCredentialsProvider'))

    def given_s3(it):
        it.prov, it.end = it.ctx.choose(('provider',), ['Container', 'Static']), it.ctx.choose(('endpoint',), [True, False])
        reg = struct_of(c, it, T_REG, region=Term('the region', (), Ty('Region')), endpoint=some(Str('the endpoint')) if it.end else none())
        it.key = struct_of(c, it, T_KEY, region=reg, aws_credentials_provider=Enum(PROV, it.prov, []), access_key=Str('the access key'), secret_key=Str('the secret key'), n=3)
        it.old_value = lambda k: Native('s3 client of the key')
        kept(lambda it: ['client'])
        return {'self': it.std.temp_ref(struct_of(c, it, DL + 's3::S3Downloader', client_cache=Native('credentials cache'))), 'key': it.std.temp_ref(it.key)}
    for n in ('credentials_provider', 'region', 'endpoint_url'):
        method('aws config', n)(lambda c2, n=n: c2.v.parts.__setitem__(n, c2.it.freeze(deref(c2.args[0]))) or c2.v)
    method('aws config', 'load')(lambda c2: Future(lambda: Native('aws settings', parts=c2.v.parts)))
    method('ecs builder', 'build')(lambda c2: Term('container credentials', (), Ty('Credentials')))

    def make(it, a):
        it.made.append(deref(a[0]).parts)
        return Native('s3 client', parts=it.made[-1])

    def spec_s3(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if len(it.keys) != 1 or it.keys[0].fields.get('n') != 3:
            return 'token', 'the client of another source is used'
        if it.reused:
            return None
        if len(it.made) != 1:
            return 'token', f'{len(it.made)} clients are made'
        p = {k: show(v) for k, v in it.made[0].items()}
        cred = p.get('credentials_provider', '')
        good = 'container credentials' in cred if it.prov == 'Container' else cred.find('the access key') >= 0 and cred.find('the access key') < cred.find('the secret key')
        if not good:
            return 'token', f'a source with {it.prov} credentials uses {cred}'
        if p.get('region') != 'the region' or ('the endpoint' in p.get('endpoint_url', '')) != it.end or not it.end and 'endpoint_url' in p:
            return 'token', f'the credentials are sent to {p}'
    c.product('s3 clients of sources', DL + 's3::S3Downloader::get_s3_client', spec_s3, given=given_s3, setup=setup, floor=8,
              models={'aws_config::from_env': lambda it, a: Native('aws config', parts={}), 'EcsCredentialsProvider::builder': lambda it, a: Native('ecs builder'),
                      'Credentials::from_keys': lambda it, a: Term('keys', tuple(it.freeze(deref(x)) for x in a), Ty('Credentials')), 'Client::new': make, 'aws_sdk_s3::Client::new': make})


def gcs_grant(c):
    """New tokens for Google's storage: what is claimed, signed and sent, and when the token counts as expired."""
    from engine.serde import struct_schema
    G, NS = SVC + 'utils::gcs::', 10**9

    @method('signed request', 'form')
    def _(c2):
        c2.v.form = c2.it.force(deref(c2.args[0]))
        return c2.v

    @method('signed request', 'send')
    def _(c2):
        c2.it.sent.append(c2.v)
        return Future(lambda: ok(Native('token response')) if c2.it.ctx.choose(('sent',), [True, False]) else err(Term('http error', ('send',), T_REQ)))

    @method('token response', 'json')
    def _(c2):
        t = Struct(G + 'GcsTokenResponse', {'access_token': Str('granted')})
        return Future(lambda: ok(t) if c2.it.ctx.choose(('valid',), [True, False]) else err(Term('http error', ('json',), T_REQ)))
    method('token client', 'post')(lambda c2: Native('signed request', url=show(c2.it.freeze(c2.it.force(deref(c2.args[0])))).strip('"'), form=None))

    def setup(it):
        it.clock, it.encoded, it.sent, it.pem = 1_800_000_000 * NS + it.ctx.choose(('part of a second',), [0, 999_999_999]), [], [], []
        it.nows = []

    def now(it, a):
        if it.nows:
            it.clock += it.ctx.choose(('time passes', len(it.nows)), [0, 2 * NS])
        it.nows.append(it.clock)
        return it.clock

    def pem(it, a):
        b = it.freeze(deref(a[0]))
        it.pem.append(show(b))
        return ok(Native('signing key')) if it.ctx.choose(('valid key',), [True, False]) else err(Term('jwt error', (), Ty('JwtError')))

    def encode(it, a):
        it.encoded.append((it.force(deref(a[0])), it.force(deref(a[1])), deref(a[2])))
        return ok(Str('signed claims')) if it.ctx.choose(('signed',), [True, False]) else err(Term('jwt error', (), Ty('JwtError')))

    def given(it):
        key = struct_of(c, it, T_FILE(c, 'GcsSourceKey'), private_key=Str('-----BEGIN\\nKEY\\n'), client_email=Str('the client'))
        return {'client': Native('token client'), 'source_key': it.std.temp_ref(key)}

    def wire(it, v, side='ser'):
        """The JSON or form fields of a value."""
        return {e.wire: it.field(v, e.path[0] if e.path else e.wire) for e in struct_schema(it, Ty(v.ty), side)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        r = it.force(out.value)
        good = all(it.ctx.known((k,)) for k in ('valid key', 'signed', 'sent', 'valid'))
        if (r.variant == 'Ok') != good:
            return 'grant: outcome', f'a token is {"answered" if r.variant == "Ok" else "refused"} although key, signature, request and response are {[it.ctx.known((k,)) for k in ("valid key", "signed", "sent", "valid")]}'
        if not it.encoded:
            return None
        msgs = []
        claims = wire(it, it.encoded[0][1])
        texts = {k: show(it.freeze(it.ctx.sstr(claims[k]))).strip('"') for k in ('iss', 'scope', 'aud') if k in claims}
        want = {'iss': 'the client', 'scope': 'https://www.googleapis.com/auth/devstorage.read_only', 'aud': 'https://www.googleapis.com/oauth2/v4/token'}
        if set(claims) != {*want, 'exp', 'iat'} or texts != want:
            msgs.append(('grant: claims', f'the claims are {texts} {sorted(claims)}'))
        exp, iat = it.force(claims['exp']), it.force(claims['iat'])
        if not (isinstance(exp, int) and isinstance(iat, int)):
            return msgs + [('grant: claims', f'the claim is valid from {show(iat)} to {show(exp)}')]
        if not it.nows[0] // NS <= iat <= it.nows[-1] // NS:
            msgs.append(('grant: times', f'the claim is issued at {iat}, it is {it.nows[-1] // NS}'))
        if not iat < exp <= iat + 3600:
            msgs.append(('grant: times', f'a claim that is valid for {exp - iat} s is refused, at most an hour is allowed'))
        if it.pem != ['"-----BEGIN\nKEY\n"'] and not all('BEGIN\nKEY' in p for p in it.pem):
            msgs.append(('grant: key', f'the key {it.pem} is used'))
        if 'RS256' not in repr(it.freeze(it.encoded[0][0])):
            msgs.append(('grant: key', f'the claims are signed with {show(it.freeze(it.encoded[0][0]))}'))
        if it.sent:
            if it.sent[0].url != want['aud']:
                msgs.append(('grant: request', f'the request is sent to {it.sent[0].url}'))
            f = {k: show(it.freeze(it.ctx.sstr(v))).strip('"') for k, v in wire(it, it.sent[0].form).items()} if it.sent[0].form is not None else {}
            if f != {'grant_type': 'urn:ietf:params:oauth:grant-type:jwt-bearer', 'assertion': 'signed claims'}:
                msgs.append(('grant: request', f'the request is {f}'))
        if r.variant == 'Ok':
            t = it.force(r.fields[0])
            if show(it.freeze(it.ctx.sstr(deref(t.fields['bearer_token'])))).strip('"') != 'Bearer granted':
                msgs.append(('grant: token', f'the token is {show(t.fields["bearer_token"])}'))
            e = it.force(t.fields['expires_at'])
            if not it.nows[-1] < e or e // NS >= exp:
                msgs.append(('grant: times', f'a token granted until {exp} counts as valid until {show(e)} ({it.nows})'))
        return msgs
    c.product('grants', G + 'request_new_token', spec, given=given, setup=setup, floor=8, mmodels={'timestamp': lambda it, recv, a: it.force(deref(recv.get() if isinstance(recv, Ref) else recv)) // NS},
              models={'Utc::now': now, 'chrono::Utc::now': now, 'Duration::minutes': lambda it, a: it.force(a[0]) * 60 * NS, 'Duration::seconds': lambda it, a: it.force(a[0]) * NS,
                      'EncodingKey::from_rsa_pem': pem, 'jsonwebtoken::encode': encode, 'Header::new': lambda it, a: Term('header', (it.freeze(it.force(a[0])),), Ty('Header'))})
    def read():
        names = []

        def spec(it, a, out):
            names.append([e.wire for e in struct_schema(it, Ty(G + 'GcsTokenResponse'), 'de')])
            return None if 'access_token' in names[-1] else ('grant: token', f'the token is read from {names[-1]}')
        c.product('token responses', G + 'GcsToken::bearer_token', spec, given=lambda it: {'self': Struct(G + 'GcsToken', {'bearer_token': Str('Bearer x'), 'expires_at': 0})}, floor=1)
    read()


def scraping_policy(c):
    """Which requests scraped files and linked sources are fetched with."""
    from .js import j01
    from .native import n05
    c.wanted = {'headers', 'certificates', 'origin', 'scraping is disabled', 'the origin is not allowed', 'the scheme is not allowed'}
    j01(c)
    n05(c)
    c.wanted = None


# ------------------------------------------------------------------ D02: clients
HTTP = SVC + 'utils::http::'
# https://www.iana.org/assignments/iana-ipv4-special-registry: what is not globally reachable
RESERVED = {'this network': '0.0.0.0/8', 'private': '10.0.0.0/8', 'shared': '100.64.0.0/10', 'loopback': '127.0.0.0/8', 'link-local': '169.254.0.0/16', 'private 172': '172.16.0.0/12', 'protocol': '192.0.0.0/29',
            'documentation 1': '192.0.2.0/24', 'relay': '192.88.99.0/24', 'private 192': '192.168.0.0/16', 'benchmark': '198.18.0.0/15', 'documentation 2': '198.51.100.0/24',
            'multicast': '224.0.0.0/4', 'reserved': '240.0.0.0/4', 'broadcast': '255.255.255.255/32'}
EXT_ENUMS['IpAddr'] = ['V4', 'V6']


def addresses(c):
    import ipaddress

    def given(it):
        it.nets = []
        v = it.ctx.choose(('version',), ['V4', 'V6'])
        return {'ip': Enum('IpAddr', v, [Term('address', (), Ty('Ipv4Addr'))])}

    def parse(it, recv, a):
        n = show(it.freeze(it.ctx.sstr(deref(recv)))).strip('"')
        try:
            ipaddress.IPv4Network(n)
        except ValueError:
            return err(Term('invalid network', (), Ty('IpNetworkError')))
        return ok(Native('network', n=n))

    def contains(it, recv, a):
        n = deref(recv).n
        hit = it.ctx.choose(('contains', n), [False, True])
        it.nets.append((n, hit))
        return hit

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v6 = it.ctx.known(('version',)) == 'V6'
        if v6:
            return ('ipv6', 'an IPv6 address is taken to be external') if out.value is not False else None
        hit = [n for n, h in it.nets if h]
        if out.value is not (not hit):
            return 'answer', f'{out.value} for an address in {hit}'
        if out.value is True:
            try:
                nets = [ipaddress.ip_network(n) for n, _ in it.nets]
            except ValueError as e:
                return 'blocks', f'{e}'
            for name, need in RESERVED.items():
                need = ipaddress.ip_network(need)
                if not any(need.subnet_of(n) for n in nets):
                    return f'block {name}', f'addresses in {need} are taken to be external'
    c.product('external addresses', HTTP + 'is_external_ip', spec, given=given, floor=10, mmodels={'network.contains': contains, 'contains': lambda it, r, a: contains(it, r, a) if getattr(deref(r), 'kind', None) == 'network' else NotImplemented,
                       'parse': parse})


def client_settings(c):
    """create_client passes its arguments on to the client it builds."""
    names = ('gzip', 'hickory_dns', 'connect_timeout', 'timeout', 'danger_accept_invalid_certs', 'redirect', 'ip_filter', 'build', 'read_timeout', 'user_agent', 'no_gzip', 'no_proxy', 'proxy',
             'danger_accept_invalid_hostnames', 'tls_sni', 'https_only', 'pool_idle_timeout', 'pool_max_idle_per_host', 'tcp_nodelay', 'tcp_keepalive', 'http1_only', 'http2_prior_knowledge', 'brotli', 'deflate',
             'zstd', 'referer', 'default_headers', 'local_address', 'interface', 'use_rustls_tls', 'use_native_tls', 'add_root_certificate', 'trust_dns', 'connection_verbose', 'min_tls_version', 'tls_built_in_root_certs')

    def setting(c2):
        n = c2.name
        if n == 'build':
            return ok(Native('built', **{'settings': c2.v.settings}))
        s = dict(c2.v.settings)
        s[n] = c2.args[0] if c2.args else True
        return Native('client builder', settings=s)
    method('client builder', *names)(setting)
    new = lambda it, a: Native('client builder', settings={})

    def given(it):
        it.args = {n: it.ctx.choose((n,), [True, False]) for n in ('connect_to_reserved_ips', 'accept_invalid_certs')}
        return {'timeouts': it.std.temp_ref(timeouts(c, it)), **it.args}

    def attempt(it, host, code):
        urls = [] if host is None else [Term('first', (), Ty('Url')), Native('previous url', host=host)]
        return Native('attempt', status=code, urls=urls)
    method('attempt', 'status')(lambda c2: status(c2.v.status))
    method('attempt', 'previous')(lambda c2: c2.it.std.temp_ref(Vec(list(c2.v.urls))))
    method('attempt', 'stop')(lambda c2: 'stop')
    method('attempt', 'follow')(lambda c2: 'follow')
    method('attempt', 'error')(lambda c2: 'error')
    method('previous url', 'host_str')(lambda c2: some(Str(c2.v.host)))
    method('default policy', 'redirect')(lambda c2: 'default')

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        b, msgs = it.force(deref(out.value)), []
        s, A = b.settings, it.args
        if ('ip_filter' in s) != (not A['connect_to_reserved_ips']):
            msgs.append(('filter', f'the address filter is {"" if "ip_filter" in s else "not "}set, connect_to_reserved_ips: {A["connect_to_reserved_ips"]}'))
        elif 'ip_filter' in s:
            f = s['ip_filter']
            for v, good in (('V4', None), ('V6', False)):
                it.filtered = []
                r = it.call_value(f, [Enum('IpAddr', v, [Term('address', (), Ty('Ipv4Addr'))])])
                if it.filtered != [v]:
                    msgs.append(('filter', 'the filter of the client is not is_external_ip'))
        if s.get('danger_accept_invalid_certs', False) is not A['accept_invalid_certs'] or s.get('danger_accept_invalid_hostnames') is True:
            msgs.append(('certificates', f'invalid certificates are {show(s.get("danger_accept_invalid_certs"))}, accept_invalid_certs: {A["accept_invalid_certs"]}'))
        for n, w in (('connect_timeout', 'timeout connect'), ('timeout', 'timeout max_download')):
            if show(it.freeze(deref(s.get(n, Str('unset'))))) != w:
                msgs.append(('client timeout', f'{n} is {show(s.get(n))}'))
        if 'redirect' not in s:
            msgs.append(('login redirect', 'redirects are not restricted'))
        else:
            for host, code, want in (('dev.azure.com', 'FOUND', 'stop'), ('example.com', 'FOUND', 'default'), ('dev.azure.com', 'MOVED_PERMANENTLY', 'default'), (None, 'FOUND', 'default')):
                got = it.call_value(s['redirect'], [attempt(it, host, code)])
                if got != want:
                    msgs.append(('login redirect', f'a redirect {STATUS[code]} from {host} is handled by {got} instead of {want}'))
        return [m for m in msgs if m[0] in c.keys]

    def external(it, a):
        it.filtered.append(it.force(deref(a[0])).variant)
        return True
    c.product('client settings', HTTP + 'create_client', spec, given=given, floor=4, opaque={'is_external_ip': external},
              models={'ClientBuilder::new': new, 'Client::builder': new, 'ClientBuilder::default': new, 'Policy::custom': lambda it, a: a[0], 'Policy::default': lambda it, a: Native('default policy'),
                      'Policy::limited': lambda it, a: Native('default policy'), 'Policy::none': lambda it, a: Native('default policy')})


def wiring(c):
    """Which client, with which timeouts, every kind of source gets."""
    def client(it, a):
        return Native('client', made=(show(it.freeze(deref(a[1]))), show(it.freeze(deref(a[2])))), timeouts=it.force(deref(a[0])))
    method('client', 'clone')(lambda c2: c2.v)
    method('runtime', 'clone')(lambda c2: c2.v)

    def given(it):
        cfg = struct_of(c, it, SVC + 'config::Config')
        return {'config': it.std.temp_ref(cfg), 'runtime': Native('runtime')}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        s, msgs = it.force(deref(out.value)), []
        part = lambda n: it.force(deref(it.field(s, n)))
        cl = lambda d, n: it.force(deref(it.field(part(d), n))).made
        cfg = 'connect_to_reserved_ips'
        want = {('sentry', 'client'): ('true', 'false'), ('http', 'client'): (cfg, 'false'), ('http', 'no_ssl_client'): (cfg, 'true'), ('gcs', 'client'): (cfg, 'false')}
        for (d, n), w in want.items():
            got = cl(d, n)
            if got[1] != w[1]:
                msgs.append(('certificates', f'{d}.{n} is made with accept_invalid_certs = {got[1]}'))
            if got[0] != w[0] and got[0] != 'false':
                msgs.append(('filter', f'{d}.{n} is made with connect_to_reserved_ips = {got[0]}'))
        t = {'connect': 'connect_timeout', 'head': 'head_timeout', 'streaming': 'streaming_timeout', 'max_download': 'max_download_timeout'}
        for d in ('sentry', 'http', 'gcs', 's3', None):
            tm = it.force(deref(it.field(part(d) if d else s, 'timeouts')))
            for f, n in t.items():
                got = show(it.freeze(deref(it.field(tm, f))))
                if got != n:
                    msgs.append(('configured timeouts', f'{f} of {d or "the service"} is {got} instead of {n}'))
        for d, n in want:
            tm = it.force(deref(it.field(part(d), n))).timeouts
            if any(show(it.freeze(deref(it.field(tm, f)))) != v for f, v in t.items()):
                msgs.append(('configured timeouts', f'the client of {d} has other timeouts'))
        if show(it.freeze(deref(it.field(s, 'connect_to_reserved_ips')))) != cfg:
            msgs.append(('filter', 'the service forgets whether it can connect to reserved addresses'))
        return [m for m in msgs if m[0] in c.keys]
    c.product('clients', T_SVC + '::new', spec, given=given, floor=1, opaque={'create_client': client, 'HostDenyList::from_config': lambda it, a: Native('deny list')})


def configured(c):
    """What is configured if the operator says nothing."""
    from engine.serde import struct_schema, default_value
    CFG = SVC + 'config::Config'

    def spec(it, a, out):
        es, msgs = {e.wire: e for e in struct_schema(it, Ty(CFG))}, []
        for n, good, key, what in (('connect_to_reserved_ips', lambda v: v is False, 'filter', 'connections to reserved addresses are'),
                                   *((n, lambda v: isinstance(v, int) and 0 < v <= 3600 * 10 ** 9, 'configured timeouts', n + ' is') for n in ('max_download_timeout', 'connect_timeout', 'head_timeout', 'streaming_timeout'))):
            if key not in c.keys:
                continue
            e = es.get(n)
            if e is None or e.required:
                msgs.append((key, f'{n} is {"required" if e else "not read"}'))
                continue
            for v in (default_value(it, e), it.field(it.force(default_of(it, Ty(CFG))), n)):
                if not good(deref(v)):
                    msgs.append((key, f'{what} {show(v)} by default'))
        return msgs
    c.product('configuration', None, spec, given=[], run=lambda it, f, a: UNIT, opaque={'is_docker': lambda it, a: False})


def modules(c, crate):
    out = []

    def rec(m):
        out.append(m)
        for d in m.types.values():
            if d.kind == 'mod':
                rec(d.extra)
    rec(c.w.crates[crate].root)
    return out


def bodies(c, m):
    """All functions of a module: (name, syntax tree)."""
    for d in list(m.values.values()):
        if d.kind in ('fn', 'const'):
            yield d.name, d.node
    for im in c.w.impls:
        if im.module is m or getattr(im.module, 'real', lambda: None)() is m:
            for n, d in im.fns.items():
                yield n, d.node


def only_clients(c):
    """No other place makes a client for what requests name."""
    from .cacher import nodes
    calls = 0
    for cr in ('symbolicator_service', 'symbolicator_js', 'symbolicator_native', 'symbolicator_proguard', 'symbolicator_sources', 'symbolicator'):
        if cr not in c.w.crates:
            c.rule('crates', False, f'the crate {cr} is not found')
            continue
        for m in modules(c, cr):
            for name, body in bodies(c, m):
                loader, own_http = False, False
                for n in nodes(body):
                    if n.get('k') == 'mcall' and n['name'] == 'http_client':
                        own_http = True
                    if n.get('k') != 'path' or not n.get('p'):
                        continue
                    segs = [x[0] for x in n['p']['segs']]
                    u = m.uses.get(segs[0])
                    full = ([x[0] if isinstance(x, list) else x for x in (u['segs'] if isinstance(u, dict) else u)] if u else segs[:1]) + segs[1:]
                    t = '::'.join(full)
                    if t in ('aws_config::from_env', 'aws_config::load_from_env', 'aws_config::defaults'):
                        loader = True
                    if not (t.startswith('reqwest::') and (full[-2:] in (['Client', 'new'], ['Client', 'builder'], ['Client', 'default'], ['ClientBuilder', 'new'], ['ClientBuilder', 'default']) or full[-1] == 'get')):
                        continue
                    calls += 1
                    # the shared cache only talks to the bucket of the configuration
                    fine = m.id == SVC + 'utils::http' or m.id.startswith(SVC + 'caching::shared_cache')
                    c.rule(f'clients made in {m.id}', fine, f'{name} makes an HTTP client of its own, without the address filter and the timeouts', f'{m.id}::{name}')
                if loader:
                    calls += 1
                    c.rule('S3 clients', own_http, f'{m.id}::{name} makes a client of its own, without the address filter, for endpoints that sources name', f'{m.id}::{name}')
    c.floor('clients', calls, 3)



# ------------------------------------------------------------------ D01, D03: S3
EXT_ENUMS.setdefault('SdkError', ['ConstructionFailure', 'TimeoutError', 'DispatchFailure', 'ResponseError', 'ServiceError'])
S3_ERRORS = ['NoSuchBucket', 'NoSuchKey', 'NotFound', 'InvalidObjectState']
EXT_ENUMS['S3Error'] = S3_ERRORS + ['Unhandled']
CODES = ['NoSuchBucket', 'NoSuchKey', 'NotFound', 'AuthorizationHeaderMalformed', 'SlowDown']


def s3(c, what):
    def given(it):
        it.place_ = {}
        src = Struct(SRC + 'sources::S3SourceConfig', {'source_key': Native('s3 key')})
        it.key = src.fields['source_key']
        slf = struct_of(c, it, DL + 's3::S3Downloader', timeouts=timeouts(c, it))
        return {'self': it.std.temp_ref(slf), 'source_name': Str('source'), 'file_source': it.std.temp_ref(Struct(T_FILE(c, 'S3RemoteFile'), {'source': src})), 'destination': Native('destination')}

    def setup(it):
        it.timers_at = {}
        it.flushed = it.streamed = None

    def client(it, a):
        it.asked = deref(a[1])
        return Future(lambda: Native('s3 client'))
    method('s3 key', 'clone')(lambda c2: c2.v)
    method('s3 client', 'get_object')(lambda c2: Native('get object'))
    for n in ('bucket', 'key'):
        method('get object', n)(lambda c2, n=n: c2.it.place_.__setitem__(n, show(c2.it.freeze(deref(c2.args[0]))).strip('"')) or c2.v)

    @method('get object', 'send')
    def _(c2):
        it = c2.it

        def go():
            it.timers_at['send'] = list(it.ctx.timers)
            k = it.kind = it.ctx.choose(('answer',), ['object', 'TimeoutError', 'ServiceError', 'DispatchFailure'])
            if k == 'object':
                it.length = it.ctx.choose(('content length',), ['none', 'empty', 'some'])
                n = {'none': none(), 'empty': some(0), 'some': some(Term('length', (), Ty('u64')))}[it.length]
                if it.length == 'some' and not it.ctx.lt(0, n.fields[0]):
                    raise Infeasible()
                return ok(Struct('GetObjectOutput', {'content_length': n, 'body': Native('s3 body')}))
            it.status = it.code = None
            if k == 'ServiceError':
                it.status = it.ctx.choose(('status',), [401, 403, 404, 503])
                it.code = it.ctx.choose(('code',), [None] + CODES)
                it.s3 = it.code if it.code in S3_ERRORS and it.ctx.choose(('converted',), [True, False]) else 'Unhandled'
                return err(Enum('SdkError', k, [Native('service error')]))
            it.s3 = 'Unhandled'
            return err(Enum('SdkError', k, [Native('sdk error')]))
        return Future(go)
    method('service error', 'raw')(lambda c2: Native('s3 response'))
    method('s3 response', 'status')(lambda c2: Native('s3 status'))
    method('s3 status', 'as_u16')(lambda c2: c2.it.status)
    method('service error', 'err')(lambda c2: Native('s3 meta'))
    code = lambda c2: none() if c2.it.code is None else some(Str(c2.it.code))
    method('s3 meta', 'code')(code)
    method('S3Error', 'code')(code)
    method('S3Error', 'to_string')(lambda c2: Str('details'))
    method('s3 meta', 'message')(lambda c2: some(Str('message')) if c2.it.ctx.choose(('message',), [True, False]) else none())
    method('s3 body', 'map_err', 'as_mut')(lambda c2: c2.v)
    method('s3 body', 'poll_next')(lambda c2: UNIT)

    def stream(it, a):
        def go():
            it.timers_at['body'] = list(it.ctx.timers)
            it.streamed = (getattr(deref(a[1]), 'kind', None), getattr(deref(a[2]), 'kind', None))
            it.body = it.ctx.choose(('body',), ['Ok', 'DownloadError', 'InternalError'])
            return ok(UNIT) if it.body == 'Ok' else failure(it, it.body)
        return Future(go)

    @method('sink', 'flush', 'shutdown')
    def _(c2):
        it = c2.it

        def go():
            it.flushed = it.ctx.choose(('flush',), [True, False])
            return ok(UNIT) if it.flushed else err(Term('io::Error::new', (Term('ErrorKind::PermissionDenied', (), Ty('ErrorKind')), Str('flush')), E_IO))
        return Future(go)

    def judge_s3(it, a, out):
        k, msgs = kind_of(it, out.value), []
        elapsed = [e[1] for e in it.ctx.trace if e[0] == 'elapsed']
        kind = getattr(it, 'kind', None)
        if it.asked is not it.key:
            msgs.append(('source result', 'the client of another source is used'))
        if it.place_ != {'bucket': 'the bucket', 'key': 'the key'}:
            msgs.append(('source result', f'{it.place_} is fetched'))
        if elapsed:
            want = 'Timeout'
        elif kind == 'object':
            want = 'NotFound' if it.length == 'empty' else it.body if it.body != 'Ok' else 'Ok' if it.flushed else 'InternalError'
        elif kind == 'TimeoutError':
            want = 'Timeout'
        elif it.status in (401, 403) or it.code == 'AuthorizationHeaderMalformed':
            want = 'PermissionDenied'
        elif it.code in ('NoSuchBucket', 'NoSuchKey', 'NotFound'):
            want = 'NotFound'
        else:
            want = 'DownloadError'
        if k != want:
            msgs.append(('source result', f'{k} instead of {want} for {kind}, {it.ctx.known(("status",))}, {it.ctx.known(("code",))}'))
        if k == 'Ok' and (it.streamed or ('', ''))[1] != 'sink':
            msgs.append(('source result', 'the body is not written to the destination'))
        if k == 'Timeout' and elapsed and not it.eq(it.force(deref(it.force(out.value).fields[0])).fields[0], elapsed[0]):
            msgs.append(('source result', 'the timeout reported is not the one that elapsed'))
        if 'send' in it.timers_at and 'timeout head' not in [show(t) for t in it.timers_at['send']]:
            msgs.append(('head timeout', 'the request is sent without a timeout'))
        if 'body' in it.timers_at:
            t = [show(x) for x in it.timers_at['body']]
            if ('timeout max_download' not in t) if it.length == 'none' else not any('streaming timeout(' in x and 'length' in x and 'timeout streaming' in x for x in t):
                msgs.append(('body timeout', f'the body is read under {t}, the content length is {it.length}'))
        return msgs

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        return [m for m in judge_s3(it, a, out) if m[0] in what]
    same = lambda it, a: a[0]
    c.product('s3 source', DL + 's3::S3Downloader::download_source', spec, given=given, setup=setup, floor=30,
              opaque={**net_hooks(c), 'S3Downloader::get_s3_client': client, 'download_stream': stream, 'S3RemoteFile::key': lambda it, a: Str('the key'), 'S3RemoteFile::bucket': lambda it, a: Str('the bucket')},
              models={'u64::try_from': lambda it, a: ok(a[0]), 'S3Error::from': lambda it, a: Enum('S3Error', it.s3, [Native('s3 meta')]), 'Error::from': lambda it, a: Enum('S3Error', it.s3, [Native('s3 meta')]), 'stream::poll_fn': lambda it, a: Native('s3 body')})


def streams(c):
    """What is written by the writers of downloads."""
    def given(it):
        it.writes, it.failed, it.chunks = [], [], []
        it.n = it.ctx.choose(('chunks',), [0, 1, 2])
        it.broken = it.ctx.choose(('stream breaks',), [False, True])
        return {'source_name': Str('source'), 'stream': Native('chunks', pos=0), 'destination': sink(it, 'file')}

    def nxt(c2):
        it, st, nm = c2.it, c2.v, c2.name

        def go():
            i = st.pos
            st.pos += 1
            if i < it.n:
                return some(ok(Term('chunk', (0, i), Ty('Bytes')))) if nm == 'next' else ok(some(Term('chunk', (0, i), Ty('Bytes'))))
            if it.broken and i == it.n:
                e = failure(it, 'DownloadError')
                return some(e) if nm == 'next' else e
            return none() if nm == 'next' else ok(none())
        return Future(go)
    method('chunks', 'next', 'try_next')(nxt)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        k = kind_of(it, out.value)
        want = 'InternalError' if it.failed else 'DownloadError' if it.broken else 'Ok'
        if k != want:
            return 'result', f'{k} instead of {want}'
        if it.writes != [('file', Term('chunk', (0, i), Ty('Bytes'))) for i in range(len(it.writes))] or k == 'Ok' and len(it.writes) != it.n:
            return 'contents', f'{it.writes} is written'
    c.product('streams', DL + 'download_stream', spec, given=given, floor=8, opaque=net_hooks(c))



# ------------------------------------------------------------------ X03: ranges
def ranges(c):
    T_BR = DL + 'partial::BytesContentRange'

    def given(it):
        it.status = it.ctx.choose(('status',), ['PARTIAL_CONTENT', 'OK', 'NOT_FOUND'])
        return {'response': it.std.temp_ref(Native('http response', n=0, s=it.status, rng=None))}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        r = it.force(out.value)
        part, there = it.status == 'PARTIAL_CONTENT', it.ctx.known(('header', 0)) is True and it.ctx.known(('text', 0)) is True
        if (r.variant == 'Some') != part:
            return 'range of an answer', f'{r.variant} for {it.status}'
        if part and ('header text' in show(it.freeze(r))) != there or part and not there and it.force(r.fields[0]).variant != 'Err':
            return 'range of an answer', f'{show(it.freeze(r))} is not what the header says'
    c.product('range of an answer', T_BR + '::from_response', spec, given=given, floor=4,
              mmodels={'parse': lambda it, r, a: Term('parsed', (it.freeze(it.ctx.sstr(deref(r))),), Ty('Result', Ty(T_BR), Ty(DL + 'partial::InvalidBytesRange')))})

    num = lambda n: Term('plain', (n,), T_STR)
    FORMS = {'range': ('bytes ', num('a'), '-', num('b'), '/', num('n')), 'unit': ('items ', num('a'), '-', num('b'), '/', num('n')), 'unsatisfiable': ('bytes */', num('n')), 'no size': ('bytes ', num('a'), '-', num('b'), '/*'),
             'no slash': ('bytes ', num('a'), '-', num('b')), 'no dash': ('bytes ', num('a'), '/', num('n')), 'nothing': ('',)}

    def given2(it):
        it.form = it.ctx.choose(('form',), list(FORMS))
        return {'s': Str(FORMS[it.form])}

    def spec2(it, a, out):
        if out.panic:
            return 'panic', out.panic
        r = it.force(out.value)
        if r.variant == 'Ok':
            if it.form != 'range':
                return 'form', f'the form {it.form} is read as a range'
            v = it.force(r.fields[0])
            F = {n: it.field(v, n) for n in ('start', 'end', 'total_size')}
            for (n, x), w in zip(F.items(), ('a', 'b', 'n')):
                if [t for t in ('a', 'b', 'n') if f'plain({t!r})' in show(it.freeze(x)).replace('"', "'")] != [w]:
                    return 'fields', f'{n} is {show(it.freeze(x))}'
            if it.cmp(F['start'], F['end']) > 0:
                return 'order', 'a range that ends before it starts is accepted'
    c.product('content range', T_BR + '::from_str', spec2, given=given2, floor=7, mmodels={'parse': lambda it, r, a: Term('number', (it.freeze(it.ctx.sstr(deref(r))),), Ty('Result', Ty('u64'), Ty('ParseIntError')))})

    def div_ceil(it, r, a):
        x, d = deref(r), deref(a[0])
        if not isinstance(d, int) or d <= 0 or isinstance(x, int):
            return NotImplemented
        n = Term('div_ceil', (it.freeze(x), d), Ty('u64'))
        if it.ctx.lt(0, x) != it.ctx.lt(0, n):
            raise Infeasible()          # 0 only for 0
        return n

    def given3(it):
        f = {'start': 0, 'end': Term('end', (), Ty('u64')), 'total_size': Term('total', (), Ty('u64'))}
        return {'r': Struct(T_BR, f)}

    def spec3(it, a, out):
        if out.panic:
            return 'panic', out.panic
        end, total = Term('end', (), Ty('u64')), Term('total', (), Ty('u64'))
        f = lambda x, n: it.field(it.force(deref(x)), n)
        rs, le, plus = items(it, out.value), it.ctx.le, lambda v, n: it.arith('+', v, n)
        if len(rs) > 8:
            return 'parts', f'{len(rs)} parts'
        if not rs:
            return ('nothing', 'the rest of the file is not requested') if it.ctx.lt(0, total) and it.ctx.lt(plus(end, 1), total) else None
        if not it.eq(f(rs[0], 'start'), plus(end, 1)):
            return 'first', f'the first part starts at {show(it.freeze(f(rs[0], "start")))}'
        if not it.eq(plus(f(rs[-1], 'end'), 1), total):
            return 'last', f'the last part ends at {show(it.freeze(f(rs[-1], "end")))}'
        for x, y in zip(rs, rs[1:]):
            if not le(f(y, 'start'), plus(f(x, 'end'), 1)):
                return 'gap', f'nothing between {show(it.freeze(f(x, "end")))} and {show(it.freeze(f(y, "start")))} is requested'
    c.product('split', DL + 'partial::split', spec3, given=given3, floor=6, k=5, mmodels={'div_ceil': div_ceil})



def writers(c):
    """Writers of downloads write every chunk completely, at its place."""
    method('std file', 'clone')(lambda c2: c2.v)

    def put(c2):
        it = c2.it
        it.writes.append((it.freeze(deref(c2.args[0])), it.freeze(deref(c2.args[1])), c2.name))
        if it.ctx.choose(('write', len(it.writes)), [True, False]):
            return ok(UNIT) if c2.name != 'write_at' else ok(Term('written', (len(it.writes),), Ty('usize')))
        it.failed.append('write')
        return err(Term('io::Error::new', (Term('ErrorKind::PermissionDenied', (), Ty('ErrorKind')), Str('write')), E_IO))
    method('std file', 'write_all_at', 'write_at')(put)
    T_OFF = DL + 'destination::OffsetFileWriteStream'
    chunk = lambda i: Term('chunk', (0, i), Ty('Bytes'))

    def setup(it):
        it.writes, it.failed = [], []

    def given(it):
        return {'self': it.std.temp_ref(Struct(T_OFF, {'file': Native('std file'), 'offset': Term('offset', (), Ty('u64')), 'end': Term('end', (), Ty('u64'))})), 'buf': chunk(0)}

    def run(it, f, a):
        r1 = it.force(it.await_value(it.call_def(f, a)))
        if r1.variant == 'Err':
            return r1
        return it.force(it.await_value(it.call_def(f, [a[0], chunk(1)])))

    def spec(it, a, out):
        if out.panic:
            return None if 'attempt to write past end of stream' in out.panic or 'assert' in out.panic else ('panic', out.panic)
        if it.force(out.value).variant == 'Ok':
            if it.failed:
                return 'result', 'success although a write failed'
            at = Term('offset', (), Ty('u64'))
            ln = it.method(it.std.temp_ref(chunk(0)), 'len', [])
            want = [(chunk(0), at), (chunk(1), it.arith('+', at, ln))]
            if [w[0] for w in it.writes] != [w[0] for w in want] or not all(it.eq(w[1], x[1]) for w, x in zip(it.writes, want)) or any(w[2] == 'write_at' for w in it.writes):
                return 'place', f'{it.writes} is written'
        elif not it.failed:
            return 'result', 'a failure without a reason'
    fs = [m for m in c.w.methods.get((T_OFF, 'write_buf'), [])]
    c.rule('writers', len(fs) == 1, 'the writer of parts is not found')
    for _, d in fs:
        c.product('writer of a part', d, spec, given=given, setup=setup, run=run, floor=3)

    # the file behind parts written in parallel
    T_MULTI = DL + 'destination::FileMultiStreamDestination'
    num = lambda n: Term(n, (), Ty('u64'))

    def resize(c2):
        it = c2.it
        it.writes.append(it.freeze(deref(c2.args[0])))
        if it.ctx.choose(('resize',), [True, False]):
            return ok(UNIT)
        it.failed.append('resize')
        return err(Term('io::Error::new', (Term('ErrorKind::PermissionDenied', (), Ty('ErrorKind')), Str('resize')), E_IO))
    method('std file', 'set_len')(resize)
    multi = lambda it: it.std.temp_ref(Struct(T_MULTI, {'original': Native('tokio file'), 'file': it.file}))

    def spec_size(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if it.writes != [num('size')]:
            return 'size', f'resized to {it.writes}'
        if (it.force(out.value).variant == 'Ok') != (not it.failed):
            return 'size', 'the result of resizing is lost'

    def spec_part(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = it.force(deref(out.value))
        if deref(v.fields.get('file')) is not it.file or not it.eq(v.fields['offset'], num('offset')):
            return 'part', f'the writer of a part starts at {show(it.freeze(v.fields["offset"]))}'
        if not it.ctx.le(it.arith('+', num('offset'), num('size')), v.fields['end']) or it.eq(it.arith('+', num('offset'), num('size')), v.fields['end']):
            return 'part', f'the writer of a part ends at {show(it.freeze(v.fields["end"]))}'
    new = lambda it: setup(it) or setattr(it, 'file', Native('std file'))
    for n, sp, g in (('set_size', spec_size, lambda it: {'self': multi(it), 'size': num('size')}), ('stream', spec_part, lambda it: {'self': multi(it), 'offset': num('offset'), 'size': num('size')})):
        ds = [d for _, d in c.w.methods.get((T_MULTI, n), [])]
        c.rule('writers', len(ds) == 1, f'{n} of files written in parallel is not found')
        for d in ds:
            c.product('parallel file', d, sp, given=g, setup=new, floor=1)

    # any other writer
    def write(it, a, full):
        b = deref(a[1])

        def go():
            r = it.ctx.choose(('write', b.tries), ['all', 'error'] if full or b.left == 1 else ['all', 'some', 'error'])
            b.tries += 1
            if r == 'error':
                it.failed.append('write')
                return err(Term('io::Error::new', (Term('ErrorKind::PermissionDenied', (), Ty('ErrorKind')), Str('write')), E_IO))
            b.left = 0 if r == 'all' else b.left - 1
            return ok(UNIT if full else Term('written', (b.tries,), Ty('usize')))
        return Future(go)
    method('buffer', 'has_remaining')(lambda c2: c2.v.left > 0)
    method('buffer', 'is_empty')(lambda c2: c2.v.left == 0)
    method('buffer', 'remaining', 'len')(lambda c2: c2.v.left)
    for n, full in (('write_all_buf', True), ('write_buf', False), ('write_all', True), ('write', False)):
        method('async writer', n)(lambda c2, full=full: write(c2.it, [c2.v, c2.args[0]], full))

    def given2(it):
        it.buf = Native('buffer', left=2, tries=0)
        return {'self': it.std.temp_ref(Native('async writer')), 'buf': it.buf}

    def spec2(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if it.force(out.value).variant == 'Ok':
            if it.failed or it.buf.left:
                return 'result', 'success although the chunk is not written completely'
        elif not it.failed:
            return 'result', 'a failure without a reason'
    gs = [im.fns['write_buf'] for im in c.w.impls if 'write_buf' in im.fns and im.module.id == DL + 'destination' and T_OFF not in str(im.self_id)]
    c.rule('writers', len(gs) == 1, 'the writer of other destinations is not found')
    X = {'AsyncWriteExt::' + n: (lambda it, a, f=f: write(it, a, f)) for n, f in (('write_all_buf', True), ('write_buf', False), ('write_all', True), ('write', False))}
    for d in gs:
        c.product('writer', d, spec2, given=given2, setup=setup, floor=2, models=X, boundloop=5)


def limits(c):
    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = it.freeze(out.value)
        if not it.ctx.le(10 ** 10, v):
            return 'least', f'{show(v)} can be less than 10 s'
        if v != 10 ** 10 and not all(x in show(v) for x in ('content_length', 'timeout_per_gb', str(2 ** 30))):
            return 'size', f'{show(v)} is the timeout of content_length bytes'
    c.product('streaming timeout', DL + 'content_length_timeout', spec, floor=2)


STATUSES = ['OK', 'PARTIAL_CONTENT', 'FOUND', 'UNAUTHORIZED', 'NOT_FOUND', 'RANGE_NOT_SATISFIABLE', 'SERVICE_UNAVAILABLE']
LATER = ['OK', 'PARTIAL_CONTENT', 'NOT_FOUND', 'SERVICE_UNAVAILABLE']
RANGES = ['none', 'invalid', 'empty', 'requested', 'other']


def status_errors(c):
    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        s, e = it.status, it.force(out.value)
        if e.variant != expected(s):
            return 'kind', f'status {STATUS[s]} is reported as {e.variant} instead of {expected(s)}'
        if e.variant == 'DownloadError' and str(STATUS[s]) not in show(it.freeze(e.fields[0])):
            return 'reason', f'status {STATUS[s]} is reported with the reason {show(it.freeze(e.fields[0]))}'

    def given(it):
        it.status = it.ctx.choose(('status',), [n for n in STATUS if STATUS[n] // 100 != 2])
        return {'source': Str('source'), 'status': status(it.status)}
    c.product('statuses', DL + 'status_to_error', spec, given=given, floor=45)


def reasons(c):
    """The reason of a failed transfer is that of its innermost cause; certificates and TLS have short ones."""
    def error(it, n):
        return Native('chained error', n=n, display=lambda spec: text(it, n))
    method('chained error', 'source')(lambda c2: some(error(c2.it, c2.v.n - 1)) if c2.v.n else none())
    method('chained error', 'to_string')(lambda c2: text(c2.it, c2.v.n))
    LAST = {'plain': ['connection refused'], 'certificate': ['error:0A000086:ssl: certificate verify failed: unable to get local issuer certificate', 'certificate verify failed'],
            'tls': ['error:1408F10B:SSL routines:ssl3_get_record:wrong version number', 'unexpected SSL routines failure']}

    def text(it, n):
        return Str(it.last) if n == 0 else Str(f'wrapper {n}')

    def given(it):
        it.kind = it.ctx.choose(('cause',), list(LAST))
        it.last = it.ctx.choose(('text',), LAST[it.kind])
        it.chain = it.ctx.choose(('causes',), [0, 1, 2, 4])
        return {'error': it.std.temp_ref(error(it, it.chain))}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        e = it.force(out.value)
        if e.variant != 'DownloadError':
            return 'kind', f'a failed transfer is reported as {e.variant}'
        r = show(it.freeze(it.ctx.sstr(e.fields[0]))).strip('"')
        want = {'plain': it.last, 'certificate': 'certificate verify failed', 'tls': 'SSL error'}[it.kind]
        if r != want:
            return 'reason', f'a transfer that failed because of "{it.last}" (wrapped {it.chain} times) is reported with the reason {r}'
    c.product('reasons', 'symbolicator_service::caching::cache_error::CacheError::download_error', spec, given=given, floor=20, boundloop=12)


CERR_KINDS = ['NotFound', 'PermissionDenied', 'Malformed', 'Timeout', 'DownloadError', 'InternalError', 'Unsupported']


def retries(c):
    def given(it):
        it.results = []

        def task(args):
            def run():
                n = len(it.results)
                r = it.ctx.choose(('try', n), ['Ok'] + (CERR_KINDS if n < 2 else ['DownloadError', 'NotFound']))
                it.results.append((r, ok(Str(f'file {n}')) if r == 'Ok' else failure(it, r, f'reason {n}')))
                return it.results[-1][1]
            return Future(run)
        return {'task_gen': Native('task', call=task)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        got = [r for r, _ in it.results]
        if not got or len(got) > 3:
            return 'tries', f'{len(got)} tries are made'
        if repr(it.freeze(out.value)) != repr(it.freeze(it.results[-1][1])):
            return 'result', f'{show(it.freeze(out.value))} is the result of {got}'
        if any(r in ('Ok', 'NotFound', 'PermissionDenied') for r in got[:-1]):
            return 'tries', f'{got} goes on after a final result'
        if len(got) < 3 and got[-1] in ('DownloadError', 'Timeout'):
            return 'tries', f'{got} gives up too early'
    c.product('retries', DL + 'retry', spec, given=given, floor=20)


T_SVC = DL + 'DownloadService'
KINDS = {'Sentry': 'sentry', 'Http': 'http', 'S3': 's3', 'Gcs': 'gcs', 'Filesystem': 'fs'}
DOWNLOADER = {'Sentry': 'sentry::SentryDownloader', 'Http': 'http::HttpDownloader', 'S3': 's3::S3Downloader', 'Gcs': 'gcs::GcsDownloader', 'Filesystem': 'filesystem::FilesystemDownloader'}
SRC = 'symbolicator_sources::'
T_RF = SRC + 'remotefile::RemoteFile'


def remote(c, it, kind):
    return Enum(T_RF, kind, [Native('remote payload')])


def service(c, what=('blocked', 'result', 'source', 'fresh file', 'destination', 'flush', 'failures', 'panic')):
    """DownloadService::download and its dispatch to the kinds of sources."""
    def given(it):
        it.kind = it.ctx.choose(('kind',), list(KINDS))
        it.tried, it.opened, it.registered = [], [], []
        deny = some(Native('deny list')) if it.ctx.choose(('deny list',), [True, False]) else none()
        tm = struct_of(c, it, SVC + 'utils::http::DownloadTimeouts', **{f: Term('timeout ' + f, (), T_DUR) for f in ('connect', 'head', 'streaming', 'max_download')})
        svc = struct_of(c, it, T_SVC, host_deny_list=deny, timeouts=tm, runtime=Native('runtime'), **{v: Native('downloader', of=k) for k, v in KINDS.items()})
        return {'self': it.std.temp_ref(svc), 'source': remote(c, it, it.kind), 'destination': Term('destination', (), Ty('PathBuf'))}

    def fetch(c2):
        it, kind = c2.it, c2.v.of
        file = next((deref(x) for x in reversed(c2.args) if isinstance(deref(x), Native) and deref(x).kind == 'tokio file'), None)

        def run():
            it.tried.append((kind, file, list(it.ctx.timers)))
            n = len(it.tried)
            if kind != it.kind:
                return failure(it, 'Malformed', 'other downloader')
            r = it.ctx.choose(('download', n), ['Ok', 'NotFound', 'PermissionDenied', 'DownloadError', 'Malformed'] if n == 1 else ['Ok', 'NotFound', 'DownloadError'])
            it.outcomes.append(r)
            return ok(UNIT) if r == 'Ok' else failure(it, r, f'reason {n}')
        return Future(run)
    method('downloader', 'download_source')(fetch)

    def create(it, a):
        def run():
            n = len(it.opened)
            it.opened.append(it.freeze(deref(a[0])))
            if n == 0 and not it.ctx.choose(('create',), [True, False]):
                it.outcomes.append('InternalError')
                return err(Term('io::Error::new', (Term('ErrorKind::PermissionDenied', (), Ty('ErrorKind')), Str('create')), E_IO))
            return ok(Native('tokio file', n=n, flushed=False))
        return Future(run)

    @method('tokio file', 'flush', 'sync_all', 'sync_data')
    def _(c2):
        it, f = c2.it, c2.v

        def run():
            if it.outcomes and it.outcomes[-1] == 'Ok' and f.n == len(it.opened) - 1:
                if it.ctx.choose(('flush', f.n), [True, False]):
                    f.flushed = True
                else:
                    it.outcomes[-1] = 'InternalError'
                    return err(Term('io::Error::new', (Term('ErrorKind::PermissionDenied', (), Ty('ErrorKind')), Str('flush')), E_IO))
            return ok(UNIT)
        return Future(run)

    @method('runtime', 'spawn')
    def _(c2):
        it, f = c2.it, c2.args[0]

        def run():
            if not it.ctx.choose(('task ends',), [True, False]):
                it.crashed = True
                return err(Term('JoinError', (), Ty('JoinError')))
            return ok(it.await_value(f))
        return Future(run)
    method('deny list', 'is_blocked')(lambda c2: c2.it.ctx.choose(('blocked',), [False, True]))
    method('deny list', 'register_failure')(lambda c2: c2.it.registered.append([show(c2.it.freeze(deref(x))) for x in c2.args]) or UNIT)
    method('deny list', 'clone', 'as_ref')(lambda c2: c2.v)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        k, msgs = kind_of(it, out.value), []
        story = f'{it.kind}, tries {it.outcomes}'
        elapsed = [e[1] for e in it.ctx.trace if e[0] == 'elapsed']
        http_metric = it.metric == 'http'
        blocked = it.ctx.known(('blocked',)) is True
        if blocked:
            if k != 'DownloadError' or it.tried or not http_metric:
                msgs.append(('blocked', f'{k} for a blocked host, {story}'))
            return [m for m in msgs if m[0] in what]
        want = 'Timeout' if elapsed else 'InternalError' if it.crashed else it.outcomes[-1] if it.outcomes else None
        if k != want:
            msgs.append(('result', f'{k} instead of {want}, {story}'))
        if elapsed and show(elapsed[0]) != 'timeout max_download':
            msgs.append(('limit', f'the download stops after {show(elapsed[0])}'))
        if any(d != it.kind for d, _, _ in it.tried):
            msgs.append(('source', f'the downloads {[d for d, _, _ in it.tried]} are made, {story}'))
        for i, (_, f, timers) in enumerate(it.tried):
            if f is None or i > 0 and f is it.tried[i - 1][1]:
                msgs.append(('fresh file', f'try {i + 1} goes on in the file of the try before, {story}'))
            if 'timeout max_download' not in [show(t) for t in timers]:
                msgs.append(('limit', f'a download runs under {timers}'))
        if any(show(o) != 'destination' for o in it.opened):
            msgs.append(('destination', f'{it.opened} is written'))
        if k == 'Ok' and not it.tried[-1][1].flushed:
            msgs.append(('flush', 'success although the file is not flushed'))
        bad = k in ('DownloadError', 'Timeout')
        deny = it.ctx.known(('deny list',))
        if len(it.registered) != (1 if bad and deny and http_metric else 0):
            msgs.append(('failures', f'{it.registered} is registered for {k}, {story}'))
        elif it.registered and 'host' not in it.registered[0][1]:
            msgs.append(('failures', f'{it.registered} is registered for the host'))
        return [m for m in msgs if m[0] in what]

    def setup(it):
        it.outcomes, it.crashed = [], False
        it.metric = None

    def metric_key(it, a):
        it.metric = it.ctx.choose(('metric key',), ['http', 'other'])
        return Str(it.metric)
    hooks = {**net_hooks(c), 'RemoteFile::host': lambda it, a: Str((Term('host', (), T_STR),)), 'RemoteFile::source_metric_key': metric_key, 'RemoteFile::is_builtin': lambda it, a: it.ctx.choose(('builtin',), [False, True])}
    c.product('service', T_SVC + '::download', spec, given=given, setup=setup, floor=100, opaque=hooks, models={'File::create': create, 'fs::File::create': create}, limit=200000)


STATUSES = ['OK', 'PARTIAL_CONTENT', 'FOUND', 'UNAUTHORIZED', 'NOT_FOUND', 'RANGE_NOT_SATISFIABLE', 'SERVICE_UNAVAILABLE']
LATER = ['OK', 'PARTIAL_CONTENT', 'NOT_FOUND', 'SERVICE_UNAVAILABLE']
RANGES = ['none', 'invalid', 'empty', 'requested', 'other']


def d01(c):
    http(c, ('success', 'failure', 'contents'), STATUSES, LATER, RANGES, [0, 1], 50, 'http')
    status_errors(c)
    retries(c)
    service(c)
    sources(c, ('source result',))
    s3(c, ('source result',))
    streams(c)
    c.section('writers', lambda: writers(c))
    c.section('reasons', lambda: reasons(c))
    c.keys = ('login redirect',)
    client_settings(c)


def d02(c):
    c.keys = ('filter',)
    configured(c)
    addresses(c)
    client_settings(c)
    wiring(c)
    c.section('clients', lambda: only_clients(c))


def d03(c):
    c.keys = ('client timeout', 'configured timeouts')
    configured(c)
    client_settings(c)
    wiring(c)
    http(c, ('head timeout', 'body timeout'), STATUSES, LATER, RANGES, [0, 1], 100, 'timers')
    limits(c)
    service(c, ('limit',))
    s3(c, ('head timeout', 'body timeout'))


def d04(c):
    c.keys = ('certificates',)
    sources(c, ('certificates', 'headers', 'token'))
    client_settings(c)
    wiring(c)
    c.section('credentials', lambda: credentials(c))
    c.section('grants', lambda: gcs_grant(c))
    c.section('scraping', lambda: scraping_policy(c))


def x03(c):
    http(c, ('part', 'contents', 'success'), ['PARTIAL_CONTENT', 'OK'], LATER, RANGES, [0, 1, 2, 3] if c.tier == 'thorough' else [0, 1, 2], 100, 'ranges')
    ranges(c)
    c.section('writers', lambda: writers(c))
