"""Options, results, iterators, vectors, sets, maps, integers, universal methods."""
import functools
from .dom import *
from .std import *
from .std import m, fn, SYMBOLIC_OK
from . import std
from .fmt import display, Spec


def cv(c, f, *args):
    return c.it.call_value(f, list(args))


def slot0(c):
    """Payload of the receiver as place (so that scalars can be mutated)."""
    e = c.v
    x = e.fields[0]
    if isinstance(x, (Struct, Vec, Map, Native, Ref)):
        return x
    return c.it.slot_ref(e.fields, 0)


# ---------------------------------------------------------------- universal
@m('any', 'clone', 'to_owned', 'cloned')
def _(c):
    return c.it.clone(c.v)


@m('any', 'clone_from')
def _(c):
    c.set(c.it.clone(deref(c.args[0])))
    return UNIT


@m('any', 'as_ref', 'borrow', 'as_slice', 'as_mut', 'borrow_mut', 'by_ref', 'as_deref', 'boxed', 'boxed_local', 'deref', 'deref_mut', 'into_inner',
   'bind_hub', 'instrument', 'in_current_span', 'fuse', 'into_boxed_str', 'into_boxed_slice', 'as_any', 'get_ref', 'get_mut', 'as_mut_slice',
   'pin', 'into_owned', 'as_path', 'as_os_str', 'shared', 'lock', 'read', 'unwrap_or_clone', 'make_mut', 'with_subscriber', 'in_span', 'into_pin')
def _(c):
    if c.name in ('as_mut', 'borrow_mut', 'get_mut', 'by_ref', 'deref_mut', 'lock', 'write', 'as_mut_slice') and isinstance(c.recv, Ref):
        from .interp import inner
        return inner(c.recv) if not isinstance(c.v, (Struct, Vec, Map, Native)) else c.v
    return c.v


@m('any', 'into')
def _(c):
    if c.expect is None:
        return c.v
    return convert(c.it, c.v, normalize_ty(c.it, c.expect))


@m('any', 'try_into')
def _(c):
    t = c.expect
    if t is not None and t[0] in ('Result', 'OptOrRes'):
        t = t.arg(0)
    if isinstance(c.v, int):
        if t is not None and t[0] in INT_BITS:
            return std.ext_call(c.it, (t[0], 'try_from'), [c.v], (), None, t)
        return ok(c.v)
    return Term('try_from', (c.it.freeze(c.v), t[0] if t is not None else '?'), Ty('Result', t, None))


@m('any', 'eq')
def _(c):
    return c.it.eq(c.v, c.a(0))


@m('any', 'ne')
def _(c):
    return not c.it.eq(c.v, c.a(0))


@m('any', 'cmp', 'total_cmp')
def _(c):
    return Enum('Ordering', {-1: 'Less', 0: 'Equal', 1: 'Greater'}[c.it.cmp(c.v, c.a(0))])


@m('any', 'partial_cmp')
def _(c):
    return some(Enum('Ordering', {-1: 'Less', 0: 'Equal', 1: 'Greater'}[c.it.cmp(c.v, c.a(0))]))


@m('any', 'max')
def _(c):
    return c.a(0) if c.it.cmp(c.v, c.a(0)) <= 0 else c.v


@m('any', 'min')
def _(c):
    return c.v if c.it.cmp(c.v, c.a(0)) <= 0 else c.a(0)


@m('any', 'clamp')
def _(c):
    if c.it.cmp(c.v, c.a(0)) < 0:
        return c.a(0)
    return c.a(1) if c.it.cmp(c.v, c.a(1)) > 0 else c.v


@m('any', 'to_string')
def _(c):
    return display(c.it, c.v)


@m('any', 'hash')
def _(c):
    h = c.a(0)
    feed_hash(c.it, h, c.v)
    return UNIT


def feed_hash(it, h, v):
    v = deref(v)
    tid = it.tyid(v)
    if tid in it.w.typedefs:
        d = it.find_method_impl(tid, 'hash')
        if d is not None:
            it.call_def(d, [v, h])
            return
        if isinstance(v, Struct):
            for x in v.fields.values():
                feed_hash(it, h, x)
            return
    if isinstance(h, Native) and hasattr(h, 'fed'):
        h.fed.append(v)
    else:
        it.ctx.effect('hash', it.freeze(v))


@m('any', 'fmt')
def _(c):
    f = c.a(0)
    s = display(c.it, c.v, getattr(f, 'spec', None))
    f.ref.set(S(f.ref.get(), s))
    return ok()


@m('any', 'into_iter', 'iter', 'iter_mut', 'into_values', 'into_stream')
def _(c):
    if c.name == 'iter_mut':
        return Iter(iterate(c.it, c.recv))
    return Iter(iterate(c.it, c.v))


@m('any', 'await')
def _(c):
    return c.it.await_value(c.v)


@m('any', 'then')
def _(c):
    if isinstance(c.v, (Future, Term)):
        f = c.args[0]
        v = c.v
        return Future(lambda: c.it.await_value(cv(c, f, c.it.await_value(v))), 'then')
    raise Unsupported('then')


@m('Future', 'map')
def _(c):
    f, v = c.args[0], c.v
    return Future(lambda: cv(c, f, c.it.await_value(v)), 'map')


@m('Future', 'unwrap_or_else', 'map_err')
def _(c):
    v = c.v
    return Future(lambda: c.it.method(std.temp_ref(c.it.await_value(v)), c.name, c.args), c.name)


@m('any', 'type_id', 'flush_noop')
def _(c):
    return Term('type_id')


# ------------------------------------------------------------------ formatter
@m('formatter', 'write_str', 'pad', 'write_fmt')
def _(c):
    c.v.ref.set(S(c.v.ref.get(), c.it.ctx.sstr(c.a(0))))
    return ok()


@m('formatter', 'write_char')
def _(c):
    c.v.ref.set(S(c.v.ref.get(), c.a(0)))
    return ok()


@m('formatter', 'alternate')
def _(c):
    return c.v.spec.alt


@m('formatter', 'width', 'precision')
def _(c):
    return none()


@m('formatter', 'debug_struct', 'debug_tuple', 'debug_list', 'debug_map', 'debug_set')
def _(c):
    n = c.it.ctx.sstr(c.a(0)) if c.args else Str('')
    b = Native('debugb', f=c.v, first=True, shape=c.name)
    c.v.ref.set(S(c.v.ref.get(), n, {'debug_struct': ' {', 'debug_tuple': '('}.get(c.name, '[')))
    return b


@m('debugb', 'field', 'entry', 'entries', 'key', 'value')
def _(c):
    b = c.v
    pre = '' if b.first else ','
    b.first = False
    if c.name == 'field' and len(c.args) == 2:
        x = S(pre, ' ', c.it.ctx.sstr(c.a(0)), ': ', display(c.it, c.a(1), Spec('?')))
    elif c.name == 'entry' and len(c.args) == 2:
        x = S(pre, display(c.it, c.a(0), Spec('?')), ': ', display(c.it, c.a(1), Spec('?')))
    elif c.name == 'entries':
        x = S(*[S(pre if i == 0 else ', ', display(c.it, y, Spec('?'))) for i, y in enumerate(iterate(c.it, c.a(0)))])
    else:
        x = S(pre, display(c.it, c.a(0), Spec('?')))
    b.f.ref.set(S(b.f.ref.get(), x))
    return b


@m('debugb', 'finish', 'finish_non_exhaustive')
def _(c):
    c.v.f.ref.set(S(c.v.f.ref.get(), {'debug_struct': ' }', 'debug_tuple': ')'}.get(c.v.shape, ']')))
    return ok()


# --------------------------------------------------------------------- Option
@m('opt', 'is_some')
def _(c):
    return c.v.variant == 'Some'


@m('opt', 'is_none')
def _(c):
    return c.v.variant == 'None'


@m('opt', 'is_some_and')
def _(c):
    return c.v.variant == 'Some' and c.it.ctx.truth(cv(c, c.args[0], c.v.fields[0]))


@m('opt', 'is_none_or')
def _(c):
    return c.v.variant == 'None' or c.it.ctx.truth(cv(c, c.args[0], c.v.fields[0]))


@m('opt', 'unwrap', 'expect', 'unwrap_unchecked')
def _(c):
    if c.v.variant == 'None':
        raise RustPanic('unwrap on None', (c.env.frame.name if c.env else '?', c.node.get('line') if c.node else '?'))
    return c.v.fields[0]


@m('res', 'unwrap', 'expect')
def _(c):
    if c.v.variant == 'Err':
        raise RustPanic('unwrap on Err', (c.env.frame.name if c.env else '?', c.node.get('line') if c.node else '?'))
    return c.v.fields[0]


@m('res', 'unwrap_err', 'expect_err')
def _(c):
    if c.v.variant == 'Ok':
        raise RustPanic('unwrap_err on Ok')
    return c.v.fields[0]


@m('opt|res', 'unwrap_or')
def _(c):
    return c.v.fields[0] if c.v.variant in ('Some', 'Ok') else c.args[0]


@m('opt|res', 'unwrap_or_else')
def _(c):
    if c.v.variant in ('Some', 'Ok'):
        return c.v.fields[0]
    return cv(c, c.args[0], *([c.v.fields[0]] if c.v.variant == 'Err' else []))


@m('opt|res', 'unwrap_or_default')
def _(c):
    if c.v.variant in ('Some', 'Ok'):
        return c.v.fields[0]
    t = c.expect
    if t is None and isinstance(deref(c.recv), Term) and deref(c.recv).ty is not None:
        t = deref(c.recv).ty.arg(0)
    if t is None and c.v.fields and isinstance(c.v.fields[0], Term) and c.v.fields[0].op == 'SystemTimeError':
        return 0
    if t is None:
        return Native('default') if False else Term('default', ())
    return default_of(c.it, normalize_ty(c.it, t))


@m('opt|res', 'map')
def _(c):
    e = c.v
    if e.variant in ('Some', 'Ok'):
        x = e.fields[0]
        if isinstance(c.recv, Ref) and not isinstance(x, (Struct, Vec, Map, Native, Ref)) and False:
            x = slot0(c)
        return Enum(e.ty, e.variant, [cv(c, c.args[0], x)])
    return e


@m('opt|res', 'map_or')
def _(c):
    if c.v.variant in ('Some', 'Ok'):
        return cv(c, c.args[1], c.v.fields[0])
    return c.args[0]


@m('opt|res', 'map_or_else')
def _(c):
    if c.v.variant in ('Some', 'Ok'):
        return cv(c, c.args[1], c.v.fields[0])
    return cv(c, c.args[0], *([c.v.fields[0]] if c.v.variant == 'Err' else []))


@m('opt|res', 'and_then')
def _(c):
    if c.v.variant in ('Some', 'Ok'):
        return cv(c, c.args[0], c.v.fields[0])
    return c.v


@m('opt|res', 'and')
def _(c):
    return c.args[0] if c.v.variant in ('Some', 'Ok') else c.v


@m('opt|res', 'or')
def _(c):
    return c.v if c.v.variant in ('Some', 'Ok') else c.args[0]


@m('opt|res', 'or_else')
def _(c):
    if c.v.variant in ('Some', 'Ok'):
        return c.v
    return cv(c, c.args[0], *([c.v.fields[0]] if c.v.variant == 'Err' else []))


@m('opt', 'xor')
def _(c):
    b = c.it.force(c.a(0))
    if c.v.variant != b.variant:
        return c.v if c.v.variant == 'Some' else b
    return none()


@m('opt', 'ok_or')
def _(c):
    return ok(c.v.fields[0]) if c.v.variant == 'Some' else err(c.args[0])


@m('opt', 'ok_or_else')
def _(c):
    return ok(c.v.fields[0]) if c.v.variant == 'Some' else err(cv(c, c.args[0]))


@m('opt', 'filter')
def _(c):
    if c.v.variant == 'Some' and c.it.ctx.truth(cv(c, c.args[0], c.v.fields[0])):
        return c.v
    return none()


@m('opt|res', 'as_ref', 'as_deref', 'copied', 'cloned', 'clone', 'as_slice')
def _(c):
    if c.name in ('clone', 'cloned', 'copied'):
        return c.it.clone(c.v)
    return Enum(c.v.ty, c.v.variant, list(c.v.fields))


@m('opt|res', 'as_mut', 'as_deref_mut')
def _(c):
    if c.v.variant in ('Some', 'Ok'):
        return Enum(c.v.ty, c.v.variant, [slot0(c)])
    return c.v


@m('opt', 'take')
def _(c):
    c.set(none())
    return c.v


@m('opt', 'replace')
def _(c):
    c.set(some(c.args[0]))
    return c.v


@m('opt', 'insert')
def _(c):
    e = some(c.args[0])
    c.set(e)
    c.v = e
    return slot0(c)


@m('opt', 'get_or_insert_with', 'get_or_insert')
def _(c):
    if c.v.variant == 'None':
        e = some(cv(c, c.args[0]) if c.name.endswith('with') else c.args[0])
        c.set(e)
        c.v = e
    return slot0(c)


@m('opt|res', 'iter', 'into_iter', 'iter_mut')
def _(c):
    return Iter([slot0(c) if c.name == 'iter_mut' else c.v.fields[0]] if c.v.variant in ('Some', 'Ok') else [])


@m('opt', 'zip')
def _(c):
    b = c.it.force(c.a(0), Ty('Option', None))
    if c.v.variant == 'Some' and b.variant == 'Some':
        return some(Tup([c.v.fields[0], b.fields[0]]))
    return none()


@m('opt', 'unzip')
def _(c):
    if c.v.variant == 'Some':
        t = c.it.force(c.v.fields[0])
        return Tup([some(t.items[0]), some(t.items[1])])
    return Tup([none(), none()])


@m('opt', 'flatten')
def _(c):
    return c.it.force(c.v.fields[0], Ty('Option', None)) if c.v.variant == 'Some' else c.v


@m('res', 'flatten')
def _(c):
    return c.it.force(c.v.fields[0], Ty('Result', None, None)) if c.v.variant == 'Ok' else c.v


@m('opt', 'transpose')
def _(c):
    if c.v.variant == 'None':
        return ok(none())
    r = c.it.force(c.v.fields[0], Ty('Result', None, None))
    return ok(some(r.fields[0])) if r.variant == 'Ok' else r


@m('res', 'transpose')
def _(c):
    if c.v.variant == 'Err':
        return some(c.v)
    r = c.it.force(c.v.fields[0], Ty('Option', None))
    return some(ok(r.fields[0])) if r.variant == 'Some' else none()


@m('opt|res', 'inspect')
def _(c):
    if c.v.variant in ('Some', 'Ok'):
        cv(c, c.args[0], c.v.fields[0])
    return c.v


@m('res', 'inspect_err')
def _(c):
    if c.v.variant == 'Err':
        cv(c, c.args[0], c.v.fields[0])
    return c.v


@m('res', 'is_ok')
def _(c):
    return c.v.variant == 'Ok'


@m('res', 'is_err')
def _(c):
    return c.v.variant == 'Err'


@m('res', 'is_ok_and')
def _(c):
    return c.v.variant == 'Ok' and c.it.ctx.truth(cv(c, c.args[0], c.v.fields[0]))


@m('res', 'is_err_and')
def _(c):
    return c.v.variant == 'Err' and c.it.ctx.truth(cv(c, c.args[0], c.v.fields[0]))


@m('res', 'ok')
def _(c):
    return some(c.v.fields[0]) if c.v.variant == 'Ok' else none()


@m('res', 'err')
def _(c):
    return some(c.v.fields[0]) if c.v.variant == 'Err' else none()


@m('res', 'map_err')
def _(c):
    return err(cv(c, c.args[0], c.v.fields[0])) if c.v.variant == 'Err' else c.v


@m('res|opt', 'context', 'with_context')
def _(c):
    if c.v.variant == 'None':
        return err(Term('anyhow', (), Ty('anyhow')))
    return c.v


# --------------------------------------------------------------------- bool
@m('bool', 'then')
def _(c):
    return some(cv(c, c.args[0])) if c.it.ctx.truth(c.v) else none()


@m('bool', 'then_some')
def _(c):
    return some(c.args[0]) if c.it.ctx.truth(c.v) else none()


@m('bool', 'not')
def _(c):
    return not c.it.ctx.truth(c.v)


# ----------------------------------------------------------------- Ordering
@m('ordering', 'then')
def _(c):
    v = c.it.force(c.v)
    return v if v.variant != 'Equal' else c.args[0]


@m('ordering', 'then_with')
def _(c):
    v = c.it.force(c.v)
    return v if v.variant != 'Equal' else cv(c, c.args[0])


@m('ordering', 'reverse')
def _(c):
    v = c.it.force(c.v)
    return Enum('Ordering', {'Less': 'Greater', 'Equal': 'Equal', 'Greater': 'Less'}[v.variant])


@m('ordering', 'is_eq', 'is_ne', 'is_lt', 'is_le', 'is_gt', 'is_ge')
def _(c):
    v = c.it.force(c.v).variant
    return {'is_eq': v == 'Equal', 'is_ne': v != 'Equal', 'is_lt': v == 'Less', 'is_le': v != 'Greater', 'is_gt': v == 'Greater', 'is_ge': v != 'Less'}[c.name]


# ------------------------------------------------------------------ integers
@m('int', 'checked_add', 'checked_mul')
def _(c):
    d, t = c.a(0), getattr(c.v, 'ty', None)
    if t is not None and t[0] in ('Instant', 'SystemTime'):
        if isinstance(d, int) and d >= 2 ** 62 * 10 ** 9:
            return none()
        if isinstance(d, int) or not c.it.ctx.choose(('beyond the end of time', c.it.freeze(d)), [False, True]):
            return some(c.it.arith('+', c.v, d))
        return none()
    r = c.it.arith('+' if 'add' in c.name else '*', c.v, d)
    if isinstance(r, int):
        return some(r) if r < 2 ** 64 else none()
    if c.it.ctx.choose(('overflow', c.it.freeze(r)), [False, True]):
        return none()
    return some(r)


@m('int', 'checked_sub', 'checked_duration_since')
def _(c):
    if c.it.ctx.le(c.a(0), c.v):
        return some(add(c.v, c.a(0), -1))
    return none()


@m('int', 'checked_div', 'checked_rem')
def _(c):
    if c.it.ctx.int_eq(c.a(0), 0):
        return none()
    return some(c.it.arith('/' if 'div' in c.name else '%', c.v, c.a(0)))


@m('int', 'saturating_sub', 'saturating_duration_since')
def _(c):
    if c.it.ctx.le(c.a(0), c.v):
        return add(c.v, c.a(0), -1)
    return 0


@m('int', 'saturating_add', 'wrapping_add', 'add')
def _(c):
    return add(c.v, c.a(0))


@m('int', 'wrapping_sub', 'sub')
def _(c):
    return add(c.v, c.a(0), -1)


@m('int', 'saturating_mul', 'wrapping_mul', 'mul', 'mul_f64', 'mul_f32')
def _(c):
    return c.it.arith('*', c.v, c.a(0))


@m('int', 'div', 'div_f64')
def _(c):
    return c.it.arith('/', c.v, c.a(0))


@m('int', 'abs')
def _(c):
    return c.v if c.it.ctx.le(0, c.v) else scale(c.v, -1)


@m('int', 'abs_diff')
def _(c):
    return add(c.v, c.a(0), -1) if c.it.ctx.le(c.a(0), c.v) else add(c.a(0), c.v, -1)


@m('int', 'get')
def _(c):
    return c.v


@m('int', 'pow')
def _(c):
    if isinstance(c.v, int) and isinstance(c.a(0), int):
        return c.v ** c.a(0)
    return Term('pow', (c.v, c.a(0)), getattr(c.v, 'ty', None))


@m('int', 'is_power_of_two', 'count_ones', 'leading_zeros', 'trailing_zeros', 'to_le_bytes', 'to_be_bytes', 'to_ne_bytes', 'swap_bytes')
def _(c):
    return Term('.' + c.name, (c.v,), T_BOOL if c.name.startswith('is_') else None)


@m('int', 'rem_euclid')
def _(c):
    return c.it.arith('%', c.v, c.a(0))


@m('int', 'is_zero')
def _(c):
    return c.it.ctx.int_eq(c.v, 0)


NS = {'as_secs': 10 ** 9, 'as_millis': 10 ** 6, 'as_micros': 1000, 'as_nanos': 1, 'as_secs_f64': 10 ** 9, 'as_secs_f32': 10 ** 9}


@m('int', 'as_secs', 'as_millis', 'as_micros', 'as_nanos', 'as_secs_f64', 'as_secs_f32')
def _(c):
    k = NS[c.name]
    if isinstance(c.v, (int, Fraction)):
        return Fraction(c.v, k) if 'f' in c.name[-3:] else int(c.v // k)
    if c.v.op == 'lin' and c.v.args[0] == 0 and len(c.v.args[1]) == 1 and c.v.args[1][0][1] == k:
        return c.v.args[1][0][0]
    if k == 1:
        return c.v
    return Term('.' + c.name, (c.v,), Ty('u64'))


# ------------------------------------------------------------------ iterators
def T(c, x):
    return c.it.ctx.truth(x)


@m('iter', 'iter', 'into_iter', 'by_ref', 'fuse', 'iter_mut', 'into_par_iter', 'par_iter', 'par_bridge', 'boxed')
def _(c):
    return c.v


@m('vec|set|map', 'par_iter', 'into_par_iter')
def _(c):
    return Iter(iterate(c.it, c.v))


@m('iter', 'copied', 'cloned')
def _(c):
    return Iter(c.it.clone(x) for x in c.v)


@m('iter', 'map')
def _(c):
    return Iter(cv(c, c.args[0], x) for x in c.v)


@m('iter', 'inspect')
def _(c):
    def g():
        for x in c.v:
            cv(c, c.args[0], x)
            yield x
    return Iter(g())


@m('iter', 'filter')
def _(c):
    return Iter(x for x in c.v if T(c, cv(c, c.args[0], x)))


@m('iter', 'filter_map', 'flat_map')
def _(c):
    def g():
        for x in c.v:
            r = cv(c, c.args[0], x)
            if c.name == 'filter_map':
                r = c.it.force(r, Ty('Option', None))
            yield from iterate(c.it, r)
    return Iter(g())


@m('iter', 'flatten')
def _(c):
    def g():
        for x in c.v:
            yield from iterate(c.it, x)
    return Iter(g())


@m('iter', 'chain')
def _(c):
    def g():
        yield from c.v
        yield from iterate(c.it, c.args[0])
    return Iter(g())


@m('iter', 'zip')
def _(c):
    def g():
        o = to_iter(c.it, c.args[0])
        while True:
            a, x = c.v.next()
            if not a:
                return
            b, y = o.next()
            if not b:
                return
            yield Tup([x, y])
    return Iter(g())


@m('iter', 'enumerate')
def _(c):
    return Iter(Tup([i, x]) for i, x in enumerate(c.v))


@m('iter', 'take')
def _(c):
    n = c.a(0)

    def g():
        i = 0
        while True:
            if isinstance(n, int):
                if i >= n:
                    return
            elif not c.it.ctx.lt(i, n):
                return
            a, x = c.v.next()
            if not a:
                return
            yield x
            i += 1
    return Iter(g())


@m('iter', 'skip')
def _(c):
    n = c.a(0)

    def g():
        for i, x in enumerate(c.v):
            if (i < n) if isinstance(n, int) else c.it.ctx.lt(i, n):
                continue
            yield x
    return Iter(g())


@m('iter', 'step_by')
def _(c):
    n = c.a(0)
    return Iter(x for i, x in enumerate(c.v) if i % n == 0)


@m('iter', 'take_while')
def _(c):
    def g():
        for x in c.v:
            if not T(c, cv(c, c.args[0], x)):
                return
            yield x
    return Iter(g())


@m('iter', 'map_while')
def _(c):
    def g():
        for x in c.v:
            r = c.it.force(cv(c, c.args[0], x), Ty('Option', None))
            if r.variant == 'None':
                return
            yield r.fields[0]
    return Iter(g())


@m('iter', 'skip_while')
def _(c):
    def g():
        on = False
        for x in c.v:
            if not on and T(c, cv(c, c.args[0], x)):
                continue
            on = True
            yield x
    return Iter(g())


@m('iter', 'scan')
def _(c):
    def g():
        st = std.temp_ref(c.args[0])
        for x in c.v:
            r = c.it.force(cv(c, c.args[1], st, x), Ty('Option', None))
            if r.variant == 'None':
                return
            yield r.fields[0]
    return Iter(g())


@m('iter', 'peekable')
def _(c):
    return c.v


@m('iter', 'peek')
def _(c):
    if not c.v.buf:
        a, x = c.v.next()
        if not a:
            return none()
        c.v.buf.insert(0, x)
    return some(c.v.buf[0])


@m('iter', 'next_if')
def _(c):
    a, x = c.v.next()
    if not a:
        return none()
    if T(c, cv(c, c.args[0], x)):
        return some(x)
    c.v.buf.insert(0, x)
    return none()


@m('iter', 'rev')
def _(c):
    def g():
        yield from reversed(c.v.materialize())
    l = c.v

    def h():
        for x in reversed(list(l)):
            yield x
    return Iter(h())


@m('iter', 'next')
def _(c):
    a, x = c.v.next()
    return some(x) if a else none()


@m('iter', 'next_back')
def _(c):
    l = c.v.materialize()
    if l:
        return some(l.pop())
    return none()


@m('iter', 'nth')
def _(c):
    n = c.a(0)
    x = None
    for i in range(n + 1):
        a, x = c.v.next()
        if not a:
            return none()
    return some(x)


@m('iter', 'last')
def _(c):
    r = none()
    for x in c.v:
        r = some(x)
    return r


@m('iter', 'count', 'len')
def _(c):
    if c.name == 'len':
        return len(c.v.materialize())
    return sum(1 for _ in c.v)


@m('iter', 'size_hint')
def _(c):
    return Tup([0, none()])


@m('iter', 'collect', 'try_collect')
def _(c):
    t = c.targs[0] if c.targs and c.targs[0] is not None else c.expect
    return collect(c.it, c.v, normalize_ty(c.it, t) if t is not None else None)


@m('iter', 'collect_vec')
def _(c):
    return Vec(list(c.v))


@m('iter', 'for_each')
def _(c):
    for x in c.v:
        cv(c, c.args[0], x)
    return UNIT


@m('iter', 'try_for_each')
def _(c):
    for x in c.v:
        r = c.it.force(cv(c, c.args[0], x), Ty('Result', None, None))
        if r.variant in ('Err', 'None'):
            return r
    return ok()


@m('iter', 'fold')
def _(c):
    acc = c.args[0]
    for x in c.v:
        acc = cv(c, c.args[1], acc, x)
    return acc


@m('iter', 'try_fold')
def _(c):
    acc = c.args[0]
    r = None
    for x in c.v:
        r = c.it.force(cv(c, c.args[1], acc, x), Ty('Result', None, None))
        if r.variant in ('Err', 'None'):
            return r
        acc = r.fields[0]
    return Enum(r.ty, r.variant, [acc]) if r is not None else (c.it.force(acc) if False else ok(acc))


@m('iter', 'try_reduce')
def _(c):
    acc = cv(c, c.args[0])
    for x in c.v:
        x = c.it.force(x)
        if x.variant in ('Err', 'None'):
            return x
        r = c.it.force(cv(c, c.args[1], acc, x.fields[0]))
        if r.variant in ('Err', 'None'):
            return r
        acc = r.fields[0]
    return ok(acc)


@m('iter', 'reduce')
def _(c):
    if len(c.args) == 2:        # of a parallel iterator
        acc = cv(c, c.args[0])
        for x in c.v:
            acc = cv(c, c.args[1], acc, x)
        return acc
    a, acc = c.v.next()
    if not a:
        return none()
    for x in c.v:
        acc = cv(c, c.args[0], acc, x)
    return some(acc)


@m('iter', 'any')
def _(c):
    for x in c.v:
        if T(c, cv(c, c.args[0], x)):
            return True
    return False


@m('iter', 'all')
def _(c):
    for x in c.v:
        if not T(c, cv(c, c.args[0], x)):
            return False
    return True


@m('iter', 'find')
def _(c):
    for x in c.v:
        if T(c, cv(c, c.args[0], x)):
            return some(x)
    return none()


@m('iter', 'find_map')
def _(c):
    for x in c.v:
        r = c.it.force(cv(c, c.args[0], x), Ty('Option', None))
        if r.variant == 'Some':
            return r
    return none()


@m('iter', 'position')
def _(c):
    for i, x in enumerate(c.v):
        if T(c, cv(c, c.args[0], x)):
            return some(i)
    return none()


@m('iter', 'rposition')
def _(c):
    l = c.v.materialize()
    for i in range(len(l) - 1, -1, -1):
        if T(c, cv(c, c.args[0], l[i])):
            return some(i)
    return none()


@m('iter', 'sum')
def _(c):
    acc = 0
    for x in c.v:
        acc = add(acc, deref(x))
    return acc


@m('iter', 'product')
def _(c):
    acc = 1
    for x in c.v:
        acc = c.it.arith('*', acc, deref(x))
    return acc


def extremum(c, key, sign, last):
    best = None
    bk = None
    for x in c.v:
        k = key(x)
        if best is None:
            best, bk = [x], k
            continue
        r = c.it.cmp(k, bk) * sign
        if r > 0 or (r == 0 and last):
            best, bk = [x], k
    return some(best[0]) if best else none()


@m('iter', 'max')
def _(c):
    return extremum(c, lambda x: x, 1, True)


@m('iter', 'min')
def _(c):
    return extremum(c, lambda x: x, -1, False)


@m('iter', 'max_by_key')
def _(c):
    return extremum(c, lambda x: cv(c, c.args[0], x), 1, True)


@m('iter', 'min_by_key')
def _(c):
    return extremum(c, lambda x: cv(c, c.args[0], x), -1, False)


def ordval(it, r):
    return {'Less': -1, 'Equal': 0, 'Greater': 1}[it.force(r, Ty('Ordering')).variant]


@m('iter', 'max_by', 'min_by')
def _(c):
    best = None
    for x in c.v:
        if best is None:
            best = [x]
            continue
        r = ordval(c.it, cv(c, c.args[0], best[0], x))
        if c.name == 'max_by':
            if r <= 0:
                best = [x]
        elif r > 0:
            best = [x]
    return some(best[0]) if best else none()


@m('iter', 'partition')
def _(c):
    a, b = [], []
    for x in c.v:
        (a if T(c, cv(c, c.args[0], x)) else b).append(x)
    return Tup([Vec(a), Vec(b)])


@m('iter', 'unzip')
def _(c):
    a, b = [], []
    for x in c.v:
        t = c.it.force(x, Ty('tuple', None, None))
        a.append(t.items[0])
        b.append(t.items[1])
    return Tup([Vec(a), Vec(b)])


@m('iter|vec', 'join')
def _(c):
    out = []
    for i, x in enumerate(iterate(c.it, c.v)):
        if i:
            out.append(c.it.ctx.sstr(c.a(0)))
        out.append(display(c.it, x) if not isinstance(deref(x), (Str,)) else x)
    return S(*out)


@m('iter', 'unique', 'dedup')
def _(c):
    def g():
        seen = []
        for x in c.v:
            if not any(c.it.eq(x, y) for y in seen):
                seen.append(x)
                yield x
    return Iter(g())


@m('iter', 'sorted', 'sorted_by_key', 'sorted_by')
def _(c):
    l = list(c.v)
    sort(c, l, c.name.replace('sorted', 'sort'))
    return Iter(l)


@m('iter', 'as_str')
def _(c):
    return S(*c.v.materialize())


# ---------------------------------------------------------------------- Vec
@m('vec|set', 'len')
def _(c):
    return len(c.v.items)


@m('vec|set|map', 'is_empty')
def _(c):
    if isinstance(c.v, Term):
        return c.it.ctx.choose(('count', c.v), list(range(c.it.ctx.k + 1))) == 0
    return not c.v.items


@m('vec', 'push', 'push_back')
def _(c):
    c.v.items.append(c.args[0])
    return UNIT


@m('vec', 'push_front')
def _(c):
    c.v.items.insert(0, c.args[0])
    return UNIT


@m('vec', 'pop', 'pop_back')
def _(c):
    return some(c.v.items.pop()) if c.v.items else none()


@m('vec', 'pop_front')
def _(c):
    return some(c.v.items.pop(0)) if c.v.items else none()


@m('vec', 'insert')
def _(c):
    c.v.items.insert(c.a(0), c.args[1])
    return UNIT


@m('vec', 'remove', 'swap_remove')
def _(c):
    i = c.a(0)
    if not i < len(c.v.items):
        raise RustPanic('remove out of range')
    x = c.v.items[i]
    if c.name == 'swap_remove':
        c.v.items[i] = c.v.items[-1]
        c.v.items.pop()
    else:
        c.v.items.pop(i)
    return x


@m('vec', 'extend', 'append', 'extend_from_slice')
def _(c):
    src = c.args[0]
    l = list(iterate(c.it, src))
    c.v.items.extend(deref(x) if isinstance(src, Ref) else x for x in l)
    if c.name == 'append' and isinstance(deref(src), Vec):
        deref(src).items.clear()
    return UNIT


@m('set', 'extend', 'append')
def _(c):
    src = c.a(0)
    for x in iterate(c.it, src):
        set_insert(c.it, c.v, x)
    if c.name == 'append' and hasattr(src, 'items'):
        src.items.clear()
    return UNIT


@m('vec', 'iter', 'into_iter', 'into_values')
def _(c):
    return Iter(list(c.v.items))


@m('set', 'iter', 'into_iter')
def _(c):
    return Iter(list(c.v.items))


@m('vec', 'iter_mut')
def _(c):
    return Iter(iterate(c.it, c.recv if isinstance(c.recv, Ref) else std.temp_ref(c.v)))


@m('vec', 'first', 'front')
def _(c):
    return some(c.v.items[0]) if c.v.items else none()


@m('set', 'first')
def _(c):
    return some(c.v.items[0]) if c.v.items else none()


@m('vec', 'last', 'back')
def _(c):
    return some(c.v.items[-1]) if c.v.items else none()


@m('vec', 'first_mut', 'last_mut', 'front_mut', 'back_mut')
def _(c):
    if not c.v.items:
        return none()
    i = 0 if c.name[0] == 'f' else len(c.v.items) - 1
    x = c.v.items[i]
    return some(x if isinstance(x, (Struct, Vec, Map, Native)) else c.it.slot_ref(c.v.items, i))


@m('vec', 'get', 'get_mut')
def _(c):
    i = c.it.force(c.a(0))
    if isinstance(i, Native):
        r = slice_range(c.it, c.v, i, must=False)
        return none() if r is None else some(r)
    if not isinstance(i, int):
        for j in range(len(c.v.items)):
            if c.it.ctx.int_eq(i, j):
                i = j
                break
        else:
            return none()
    if not 0 <= i < len(c.v.items):
        return none()
    x = c.v.items[i]
    return some(x if c.name == 'get' or isinstance(x, (Struct, Vec, Map, Native)) else c.it.slot_ref(c.v.items, i))


@m('vec|set', 'contains')
def _(c):
    return any(c.it.eq(x, c.a(0)) for x in c.v.items)


@m('set', 'insert')
def _(c):
    return set_insert(c.it, c.v, c.args[0])


@m('set', 'remove')
def _(c):
    for i, x in enumerate(c.v.items):
        if c.it.eq(x, c.a(0)):
            c.v.items.pop(i)
            return True
    return False


@m('set', 'take')
def _(c):
    for i, x in enumerate(c.v.items):
        if c.it.eq(x, c.a(0)):
            return some(c.v.items.pop(i))
    return none()


@m('set', 'get')
def _(c):
    for x in c.v.items:
        if c.it.eq(x, c.a(0)):
            return some(x)
    return none()


@m('set', 'replace')
def _(c):
    for i, x in enumerate(c.v.items):
        if c.it.eq(x, c.a(0)):
            c.v.items[i] = c.args[0]
            return some(x)
    c.v.items.append(c.args[0])
    return none()


@m('set', 'is_subset', 'is_superset', 'is_disjoint', 'union', 'intersection', 'difference')
def _(c):
    o = c.it.force(c.a(0))
    inn = lambda x, l: any(c.it.eq(x, y) for y in l.items)
    if c.name == 'is_subset':
        return all(inn(x, o) for x in c.v.items)
    if c.name == 'is_superset':
        return all(inn(x, c.v) for x in o.items)
    if c.name == 'is_disjoint':
        return not any(inn(x, o) for x in c.v.items)
    if c.name == 'union':
        return Iter(c.v.items + [x for x in o.items if not inn(x, c.v)])
    if c.name == 'intersection':
        return Iter([x for x in c.v.items if inn(x, o)])
    return Iter([x for x in c.v.items if not inn(x, o)])


@m('vec|set|map', 'clear')
def _(c):
    c.v.items.clear()
    return UNIT


@m('vec', 'truncate')
def _(c):
    n = c.a(0)
    del c.v.items[n:]
    return UNIT


@m('vec', 'drain')
def _(c):
    r = deref(c.args[0])
    lo = r.lo or 0
    hi = len(c.v.items) if r.hi is None else r.hi + (1 if r.incl else 0)
    l = c.v.items[lo:hi]
    del c.v.items[lo:hi]
    return Iter(l)


@m('set|map', 'drain')
def _(c):
    l = c.v.items[:]
    c.v.items.clear()
    return Iter([Tup(x) if isinstance(x, list) else x for x in l])


@m('vec', 'split_off')
def _(c):
    n = c.a(0)
    l = c.v.items[n:]
    del c.v.items[n:]
    return Vec(l)


def sort(c, l, name):
    it = c.it
    if name in ('sort', 'sort_unstable'):
        l.sort(key=functools.cmp_to_key(it.cmp))
    elif name in ('sort_by', 'sort_unstable_by'):
        l.sort(key=functools.cmp_to_key(lambda a, b: ordval(it, cv(c, c.args[0], a, b))))
    else:
        keyed = [(cv(c, c.args[0], x), x) for x in l]
        keyed.sort(key=functools.cmp_to_key(lambda a, b: it.cmp(a[0], b[0])))
        l[:] = [x for _, x in keyed]


@m('vec', 'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key')
def _(c):
    sort(c, c.v.items, c.name)
    return UNIT


@m('vec', 'dedup', 'dedup_by_key')
def _(c):
    out = []
    for x in c.v.items:
        kx = cv(c, c.args[0], x) if c.args else x
        if out:
            ky = cv(c, c.args[0], out[-1]) if c.args else out[-1]
            if c.it.eq(kx, ky):
                continue
        out.append(x)
    c.v.items[:] = out
    return UNIT


@m('vec|set', 'retain', 'retain_mut')
def _(c):
    c.v.items[:] = [x for x in c.v.items if T(c, cv(c, c.args[0], x))]
    return UNIT


@m('map', 'retain')
def _(c):
    c.v.items[:] = [kv for kv in c.v.items if T(c, cv(c, c.args[0], kv[0], c.it.slot_ref(kv, 1)))]
    return UNIT


@m('vec', 'reverse')
def _(c):
    c.v.items.reverse()
    return UNIT


@m('vec', 'swap')
def _(c):
    i, j = c.a(0), c.a(1)
    c.v.items[i], c.v.items[j] = c.v.items[j], c.v.items[i]
    return UNIT


@m('vec', 'concat')
def _(c):
    if c.v.items and isinstance(deref(c.v.items[0]), Vec):
        return Vec([y for x in c.v.items for y in iterate(c.it, x)])
    return S(*[c.it.ctx.sstr(x) for x in c.v.items])


@m('vec|set', 'to_vec', 'into_vec', 'as_slice', 'as_mut_slice', 'into_boxed_slice')
def _(c):
    if c.name == 'to_vec':
        return c.it.clone(c.v)
    return c.v


@m('vec', 'split_first', 'split_last')
def _(c):
    l = c.v.items
    if not l:
        return none()
    return some(Tup([l[0], Vec(l[1:])]) if c.name == 'split_first' else Tup([l[-1], Vec(l[:-1])]))


@m('vec', 'split_at')
def _(c):
    n = c.a(0)
    return Tup([Vec(c.v.items[:n]), Vec(c.v.items[n:])])


@m('vec', 'chunks', 'chunks_exact', 'array_chunks')
def _(c):
    n = c.a(0)
    l = c.v.items
    return Iter(Vec(l[i:i + n]) for i in range(0, len(l), n))


@m('vec', 'windows')
def _(c):
    n = c.a(0)
    l = c.v.items
    return Iter(Vec(l[i:i + n]) for i in range(0, len(l) - n + 1))


@m('vec', 'starts_with', 'ends_with')
def _(c):
    o = c.it.force(c.a(0))
    l = c.v.items
    if isinstance(o, Str):
        raise Unsupported('bytes starts_with')
    n = len(o.items)
    if n > len(l):
        return False
    part = l[:n] if c.name == 'starts_with' else l[len(l) - n:]
    return all(c.it.eq(x, y) for x, y in zip(part, o.items))


@m('vec', 'resize')
def _(c):
    n = c.a(0)
    l = c.v.items
    while len(l) < n:
        l.append(c.it.clone(c.args[1]))
    del l[n:]
    return UNIT


@m('vec|set|map', 'reserve', 'shrink_to_fit', 'with_capacity')
def _(c):
    return UNIT


@m('vec|map|str|set', 'capacity')
def _(c):
    return Term('capacity', (c.it.freeze(c.v),), T_USIZE)


@m('vec', 'fill')
def _(c):
    c.v.items[:] = [c.args[0] for _ in c.v.items]
    return UNIT


@m('vec', 'binary_search_by_key', 'binary_search', 'binary_search_by', 'partition_point')
def _(c):
    l = c.v.items
    if c.name == 'partition_point':
        for i, x in enumerate(l):
            if not T(c, cv(c, c.args[0], x)):
                return i
        return len(l)
    for i, x in enumerate(l):
        if c.name == 'binary_search_by':
            r = ordval(c.it, cv(c, c.args[0], x))
        elif c.name == 'binary_search':
            r = c.it.cmp(x, c.a(0))
        else:
            r = c.it.cmp(cv(c, c.args[1], x), c.a(0))
        if r == 0:
            return ok(i)
        if r > 0:
            return err(i)
    return err(len(l))


# ---------------------------------------------------------------------- Map
def as_map(c):
    if isinstance(c.v, Term):
        return None
    return c.v


@m('map', 'len')
def _(c):
    if isinstance(c.v, Term):
        return c.it.ctx.choose(('count', c.v), list(range(c.it.ctx.k + 1)))
    return len(c.v.items)


@m('map', 'get', 'get_mut')
def _(c):
    mp = as_map(c)
    k = c.a(0)
    if mp is None:
        return term_get(c, c.v, k)
    i = map_find(c.it, mp, k)
    if i is None:
        if mp.base is not None:
            return term_get(c, mp.base, k)
        return none()
    x = mp.items[i][1]
    return some(x if c.name == 'get' or isinstance(x, (Struct, Vec, Map, Native)) else c.it.slot_ref(mp.items[i], 1))


def term_get(c, t, k):
    el = t.ty.arg(1) if t.ty is not None else None
    return Term('mapget', (t, c.it.freeze(k)), Ty('Option', el))


@m('map', 'contains_key')
def _(c):
    mp = as_map(c)
    if mp is None or mp.base is not None:
        t = c.v if mp is None else mp.base
        if mp is not None and map_find(c.it, mp, c.a(0)) is not None:
            return True
        return c.it.force(term_get(c, t, c.a(0))).variant == 'Some'
    return map_find(c.it, mp, c.a(0)) is not None


@m('map', 'insert')
def _(c):
    mp = as_map(c)
    if mp is None:
        mp = Map([], c.v)
        c.set(mp)
    if mp.base is not None:
        i = map_find(c.it, mp, c.args[0])
        if i is None:
            mp.items.append([c.args[0], c.args[1]])
            return Term('mapget', (mp.base, c.it.freeze(c.args[0])), Ty('Option', None))
    return map_insert(c.it, mp, c.args[0], c.args[1])


@m('map', 'remove')
def _(c):
    mp = as_map(c)
    if mp is None:
        c.it.ctx.effect('mapremove', c.v, c.it.freeze(c.a(0)))
        return term_get(c, c.v, c.a(0))
    i = map_find(c.it, mp, c.a(0))
    if i is None:
        return none()
    return some(mp.items.pop(i)[1])


@m('map', 'keys', 'into_keys')
def _(c):
    return Iter(c.it.force(t).items[0] for t in iterate(c.it, c.v))


@m('map', 'values', 'into_values')
def _(c):
    return Iter(c.it.force(t).items[1] for t in iterate(c.it, c.v))


@m('map', 'values_mut')
def _(c):
    return Iter((kv[1] if isinstance(kv[1], (Struct, Vec, Map, Native)) else c.it.slot_ref(kv, 1)) for kv in c.v.items)


@m('map', 'iter', 'into_iter')
def _(c):
    return Iter(iterate(c.it, c.v))


@m('map', 'iter_mut')
def _(c):
    return Iter(iterate(c.it, std.temp_ref(c.v)))


@m('map', 'extend', 'append')
def _(c):
    for t in iterate(c.it, c.a(0)):
        t = c.it.force(t, Ty('tuple', None, None))
        if isinstance(c.v, Term):
            c.v = Map([], c.v)
            c.set(c.v)
        map_insert(c.it, c.v, t.items[0], t.items[1])
    return UNIT


@m('map', 'entry')
def _(c):
    mp = as_map(c)
    if mp is None:
        mp = Map([], c.v)
        c.set(mp)
    k = c.args[0]
    i = map_find(c.it, mp, k)
    if i is None and mp.base is not None:
        r = c.it.force(Term('mapget', (mp.base, c.it.freeze(k)), Ty('Option', mp.base.ty.arg(1) if mp.base.ty else None)))
        if r.variant == 'Some':
            mp.items.append([k, r.fields[0]])
            i = len(mp.items) - 1
    if i is None:
        return Enum('Entry', 'Vacant', [Native('entry', mp=mp, key=k, i=None)])
    return Enum('Entry', 'Occupied', [Native('entry', mp=mp, key=k, i=i)])


def entry_slot(c, e):
    kv = e.mp.items[e.i]
    return kv[1] if isinstance(kv[1], (Struct, Vec, Map, Native)) else c.it.slot_ref(kv, 1)


@m('Entry', 'or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key', 'insert_entry')
def _(c):
    e = c.v.fields[0]
    if e.i is None:
        if c.name == 'or_insert':
            x = c.args[0]
        elif c.name == 'or_insert_with':
            x = cv(c, c.args[0])
        elif c.name == 'or_insert_with_key':
            x = cv(c, c.args[0], e.key)
        else:
            t = None
            if e.mp.base is not None and e.mp.base.ty is not None:
                t = e.mp.base.ty.arg(1)
            t = t if t is not None else e.mp.vty
            x = default_of(c.it, t) if t is not None else default_of(c.it, c.expect) if c.expect is not None else Native('lazydefault')
        e.mp.items.append([e.key, x])
        e.i = len(e.mp.items) - 1
    return entry_slot(c, e)


@m('Entry', 'and_modify')
def _(c):
    e = c.v.fields[0]
    if e.i is not None:
        cv(c, c.args[0], entry_slot(c, e))
    return c.v


@m('Entry', 'key')
def _(c):
    return c.v.fields[0].key


@m('entry', 'insert', 'insert_entry')
def _(c):
    e = c.v
    if e.i is None:
        e.mp.items.append([e.key, c.args[0]])
        e.i = len(e.mp.items) - 1
        return entry_slot(c, e)
    old = e.mp.items[e.i][1]
    e.mp.items[e.i][1] = c.args[0]
    return old


@m('entry', 'get', 'get_mut', 'into_mut')
def _(c):
    return entry_slot(c, c.v)


@m('entry', 'key')
def _(c):
    return c.v.key


@m('entry', 'remove')
def _(c):
    return c.v.mp.items.pop(c.v.i)[1]


# a collection whose element type only becomes known on first use
@m('lazydefault', 'push', 'extend', 'insert', 'push_str')
def _(c):
    v = {'push': Vec([]), 'extend': Vec([]), 'push_str': Str('')}.get(c.name)
    if v is None:
        v = Map() if len(c.args) == 2 else Vec([], 'Set')
    c.set(v)
    return c.it.method(c.recv, c.name, c.args)


# ------------------------------------------------------------- cells, atomics
@fn('Mutex::new', 'RwLock::new', 'RefCell::new', 'Cell::new', 'AtomicUsize::new', 'AtomicU64::new', 'AtomicBool::new', 'AtomicU32::new', 'AtomicI64::new')
def _(it, args, targs, expect):
    return Native('cell', v=args[0])


@fn('OnceCell::new', 'OnceLock::new')
def _(it, args, targs, expect):
    return Native('cell', v=none(), once=True)


class GuardRef(Ref):
    """What locking returns: the place itself, or a result around it (std's poisoning) when unwrapped."""
    __slots__ = ()


def cell_ref(n):
    return GuardRef(lambda: n.v, lambda x: setattr(n, 'v', x))


@m('cell', 'lock', 'borrow_mut', 'write', 'get_mut', 'read', 'borrow', 'try_lock', 'blocking_lock')
def _(c):
    return cell_ref(c.v)


@m('cell', 'into_inner')
def _(c):
    return cell_ref(c.v)


@m('cell', 'load', 'get', 'lock_arc')
def _(c):
    return c.v.v


@m('cell', 'store', 'set')
def _(c):
    if getattr(c.v, 'once', False):
        if c.it.force(c.v.v).variant == 'Some':
            return Enum('Result', 'Err', [c.args[0]])
        c.v.v = some(c.args[0])
        return Enum('Result', 'Ok', [UNIT])
    c.v.v = c.args[0]
    return UNIT


@m('cell', 'swap', 'replace')
def _(c):
    old = c.v.v
    c.v.v = c.args[0]
    return old


@m('cell', 'take')
def _(c):
    old = c.v.v
    c.v.v = none() if isinstance(old, Enum) else Vec([]) if isinstance(old, Vec) else Term('taken')
    return old


@m('cell', 'fetch_add', 'fetch_sub', 'fetch_max', 'fetch_or')
def _(c):
    old = c.v.v
    if c.name in ('fetch_add', 'fetch_sub'):
        c.v.v = add(old, c.a(0), 1 if c.name == 'fetch_add' else -1)
    elif c.name == 'fetch_or':
        c.v.v = c.it.ctx.truth(old) or c.it.ctx.truth(c.a(0))
    else:
        c.v.v = Term('max', (c.it.freeze(old), c.it.freeze(c.a(0))), T_USIZE)
    return old


@m('cell', 'get_or_init', 'get_or_insert_with')
def _(c):
    if isinstance(c.v.v, Term):
        c.v.v = c.it.force(c.v.v)
    if isinstance(c.v.v, Enum) and c.v.v.variant == 'None':
        c.v.v = some(cv(c, c.args[0]))
    return c.v.v.fields[0]


# --------------------------------------------------------------- free functions
@fn('Box::new', 'Arc::new', 'Rc::new', 'Pin::new', 'Box::pin', 'Cow::Borrowed', 'Cow::Owned', 'Cow::from', 'Arc::from', 'Box::from', 'Arc::clone', 'Rc::clone', 'Reverse_', 'Arc::as_ref',
    'Wrapping', 'convert::identity', 'identity', 'black_box', 'Some_', 'future::ready', 'Arc::make_mut', 'Arc::unwrap_or_clone', 'ManuallyDrop::new', 'Box::leak', 'AssertUnwindSafe', 'Lazy::force', 'task::unconstrained',
    'BufReader::new', 'Cow::into_owned', 'Path::new', 'PathBuf::from', 'OsStr::new', 'OsString::from', 'str::from_utf8_unchecked', 'Box::into_pin', 'LazyLock::force', 'Arc::get_mut_', 'ByteView::from_vec_')
def _(it, args, targs, expect):
    return args[0]


@fn('Lazy::new', 'LazyLock::new')
def _(it, args, targs, expect):
    return it.call_value(args[0], [])


@fn('Reverse', 'cmp::Reverse')
def _(it, args, targs, expect):
    return Native('reverse', v=args[0])


@fn('mem::forget')
def _(it, args, targs, expect):
    if it.drops is not None:
        it.drops.owner.pop(id(args[0]), None)
        it.drops.gone.append(id(args[0]))
    return UNIT


@fn('drop', 'mem::drop')
def _(it, args, targs, expect):
    v = deref(args[0])
    if it.drops is not None and not isinstance(args[0], Ref):
        it.drops.drop(args[0])
    if isinstance(v, Native) and hasattr(v, 'drop'):
        v.drop()
    return UNIT


@fn('mem::take')
def _(it, args, targs, expect):
    from .interp import inner
    r = inner(args[0])
    v = r.get()
    v = it.force(v) if not isinstance(v, Term) or v.ty is None or v.ty[0] not in ('Map',) else v
    if isinstance(v, Vec):
        old = Vec(v.items, v.kind)
        v.items = []
        return old
    if isinstance(v, Map):
        old = Map(v.items, v.base, v.vty)
        v.items, v.base = [], None
        return old
    if isinstance(v, Str):
        r.set(Str(''))
    elif isinstance(v, Enum) and v.ty == 'Option':
        r.set(none())
    elif isinstance(v, bool):
        r.set(False)
    elif isinstance(v, int):
        r.set(0)
    elif isinstance(v, Struct):
        old = Struct(v.ty, dict(v.fields), v.tyargs)
        nv = default_of(it, Ty(v.ty, *v.tyargs))
        v.fields.update(nv.fields)
        return old
    elif isinstance(v, Term) and v.ty is not None:
        r.set(default_of(it, v.ty))
    elif isinstance(v, Enum):
        r.set(default_of(it, Ty(v.ty)))
    else:
        raise Unsupported('mem::take')
    return v


@fn('mem::replace')
def _(it, args, targs, expect):
    from .interp import inner
    r = inner(args[0]) if isinstance(args[0], Ref) else None
    if r is None:
        v = deref(args[0])
        if isinstance(v, Struct):
            old = Struct(v.ty, dict(v.fields), v.tyargs)
            v.fields.clear()
            v.fields.update(deref(args[1]).fields)
            return old
        raise Unsupported('mem::replace')
    v = r.get()
    r.set(args[1])
    return v


@fn('mem::swap')
def _(it, args, targs, expect):
    from .interp import inner
    a, b = inner(args[0]), inner(args[1])
    x, y = a.get(), b.get()
    a.set(y)
    b.set(x)
    return UNIT


@fn('cmp::max', 'max')
def _(it, args, targs, expect):
    return args[1] if it.cmp(args[0], args[1]) <= 0 else args[0]


@fn('cmp::min', 'min')
def _(it, args, targs, expect):
    return args[0] if it.cmp(args[0], args[1]) <= 0 else args[1]


@fn('iter::once')
def _(it, args, targs, expect):
    return Iter([args[0]])


@fn('iter::empty')
def _(it, args, targs, expect):
    return Iter([])


@fn('iter::repeat')
def _(it, args, targs, expect):
    def g():
        while True:
            yield args[0]
    return Iter(g())


@fn('iter::zip')
def _(it, args, targs, expect):
    return it.method(std.temp_ref(to_iter(it, args[0])), 'zip', [args[1]])


@fn('iter::from_fn')
def _(it, args, targs, expect):
    def g():
        n = 0
        while True:
            r = it.force(it.call_value(args[0], []), Ty('Option', None))
            if r.variant == 'None':
                return
            yield r.fields[0]
            n += 1
            if n > 64:
                raise Unsupported('iter::from_fn')
    return Iter(g())


@fn('iter::successors')
def _(it, args, targs, expect):
    def g():
        cur = it.force(args[0], Ty('Option', None))
        n = 0
        while cur.variant == 'Some':
            yield cur.fields[0]
            cur = it.force(it.call_value(args[1], [cur.fields[0]]), Ty('Option', None))
            n += 1
            if n > 64:
                raise Unsupported('iter::successors')
    return Iter(g())


@fn('Vec::new', 'VecDeque::new', 'Vec::with_capacity', 'VecDeque::with_capacity', 'SmallVec::new')
def _(it, args, targs, expect):
    return Vec([])


@fn('HashSet::new', 'BTreeSet::new', 'HashSet::with_capacity')
def _(it, args, targs, expect):
    return Vec([], 'Set')


@fn('HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity', 'IndexMap::new')
def _(it, args, targs, expect):
    return Map()


@fn('String::new', 'String::with_capacity', 'PathBuf::new', 'BytesMut::new', 'Bytes::new')
def _(it, args, targs, expect):
    return Str('')


@fn('ptr::eq', 'Arc::ptr_eq', 'std::ptr::eq')
def _(it, args, targs, expect):
    return deref(args[0]) is deref(args[1]) or it.same(args[0], args[1])


@fn('any::type_name', 'type_name')
def _(it, args, targs, expect):
    return Str(('type',))


@fn('Duration::from_secs')
def _(it, args, targs, expect):
    return dur(args[0], 10 ** 9)


@fn('Duration::from_millis')
def _(it, args, targs, expect):
    return dur(args[0], 10 ** 6)


@fn('Duration::from_micros')
def _(it, args, targs, expect):
    return dur(args[0], 1000)


@fn('Duration::from_nanos')
def _(it, args, targs, expect):
    return dur(args[0], 1)


@fn('Duration::from_secs_f64', 'Duration::from_secs_f32')
def _(it, args, targs, expect):
    return dur(args[0], 10 ** 9)


@fn('Duration::new')
def _(it, args, targs, expect):
    return add(dur(args[0], 10 ** 9), deref(args[1]))


@fn('Duration::from_hours')
def _(it, args, targs, expect):
    return dur(args[0], 3600 * 10 ** 9)


@fn('Duration::from_mins')
def _(it, args, targs, expect):
    return dur(args[0], 60 * 10 ** 9)


def dur(v, k):
    r = scale(v, k)
    if isinstance(r, Fraction) and r.denominator == 1:
        r = int(r)
    if isinstance(r, Term):
        return Term(r.op, r.args, Ty('Duration'))
    return r


EXT_CONST['Duration::ZERO'] = 0
EXT_CONST['Duration::MAX'] = (2 ** 64) * 10 ** 9 - 1
EXT_CONST['SystemTime::UNIX_EPOCH'] = 0
EXT_CONST['time::UNIX_EPOCH'] = 0
EXT_CONST['f64::MAX'] = 10 ** 300
EXT_CONST['String::new'] = None
del EXT_CONST['String::new']


@fn('SystemTime::now')
def _(it, args, targs, expect):
    return Term('now', (), Ty('SystemTime'))


@fn('Instant::now')
def _(it, args, targs, expect):
    return Term('now', (), Ty('Instant'))


@m('int', 'elapsed')
def _(c):
    r = add(Term('now', (), Ty('SystemTime')), c.v, -1)
    r = Term(r.op, r.args, Ty('Duration')) if isinstance(r, Term) else r
    t = deref(c.recv)
    if isinstance(t, Term) and t.ty is not None and t.ty[0] == 'Instant':
        return r
    if c.expect is not None and c.expect[0] not in ('Result', 'OptOrRes', 'Option'):
        return r
    return Native('timeresult', v=r) if False else (ok(r) if c.it.ctx.le(c.v, Term('now', (), Ty('SystemTime'))) else err(Term('SystemTimeError')))


@m('int', 'duration_since')
def _(c):
    return ok(add(c.v, c.a(0), -1)) if c.it.ctx.le(c.a(0), c.v) else err(Term('SystemTimeError'))


# closures as values
@m('fn', 'call', 'call_mut', 'call_once')
def _(c):
    return c.it.call_value(c.v, list(c.args))


# --------------------------------------------------------------------- futures
@fn('future::join_all', 'join_all', 'future::try_join_all', 'try_join_all')
def _(it, args, targs, expect):
    l = list(iterate(it, args[0]))

    def run():
        out = [it.await_value(x) for x in l]
        return Vec(out)
    return Future(run, 'join_all')


@fn('future::join', 'future::zip')
def _(it, args, targs, expect):
    return Future(lambda: Tup([it.await_value(a) for a in args]), 'join')


@fn('tokio::spawn', 'task::spawn', 'spawn')
def _(it, args, targs, expect):
    f = args[0]
    it.ctx.effect('spawn')
    return Future(lambda: ok(it.await_value(f)), 'spawn')


@fn('task::spawn_blocking', 'tokio::spawn_blocking')
def _(it, args, targs, expect):
    f = args[0]
    return Future(lambda: ok(it.call_value(f, [])), 'spawn_blocking')


@fn('time::timeout', 'tokio::timeout')
def _(it, args, targs, expect):
    d, f = args

    def run():
        n = it.ctx.counter.get('timeout', 0)
        it.ctx.counter['timeout'] = n + 1
        it.ctx.effect('timeout', it.freeze(d))
        if it.ctx.choose(('elapsed', n), [False, True]):
            it.ctx.effect('elapsed', it.freeze(d))
            return err(Term('Elapsed', (), Ty('Elapsed')))
        it.ctx.timers.append(it.freeze(d))
        try:
            return ok(it.await_value(f))
        finally:
            it.ctx.timers.pop()
    return Future(run, 'timeout')


@fn('time::sleep')
def _(it, args, targs, expect):
    it.ctx.effect('sleep', it.freeze(args[0]))
    return UNIT


# sequences that stay symbolic
def _sym_is_empty(c):
    return c.it.ctx.choose(('count', c.v), list(range(c.it.ctx.k + 1))) == 0


SYMBOLIC_OK[('vec', 'is_empty')] = _sym_is_empty
SYMBOLIC_OK[('set', 'is_empty')] = _sym_is_empty
SYMBOLIC_OK[('vec', 'as_slice')] = lambda c: c.v
SYMBOLIC_OK[('vec', 'to_vec')] = lambda c: c.v
SYMBOLIC_OK[('vec', 'iter')] = lambda c: Iter(iterate(c.it, c.v))
SYMBOLIC_OK[('vec', 'into_iter')] = lambda c: Iter(iterate(c.it, c.v))
