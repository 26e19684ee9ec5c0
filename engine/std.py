"""Transfer functions for the standard library and dispatch of method calls."""
import functools
from .dom import *
from .syntax import Def
from . import fmt as F
from .fmt import Spec, display

EXT_ENUMS = {
    'Ordering': ['Less', 'Equal', 'Greater'],
    'ControlFlow': ['Continue', 'Break'],
    'Cow': ['Borrowed', 'Owned'],
    'Bound': ['Included', 'Excluded', 'Unbounded'],
}
EXT_DISPLAY = {}       # ty -> fn(it, v, spec) -> Str
EXT_FIELDS = {}        # (ty, field) -> Ty
EXT_PAYLOAD = {}       # (enum, variant) -> [Ty]
EXT_FN = {}            # 'Type::fn' or 'mod::fn' -> fn(it, args, targs, expect)
EXT_CONST = {}         # 'Type::NAME' -> value
EXT_METHOD = {}        # (tyname, method) -> fn(it, recv, v, args, targs, expect)
EXT_SIG = {}           # 'Type::fn' or '.method' or 'Type.method' -> Ty of the uninterpreted result
BUILTIN = {}           # (kind, method) -> fn(it, c)


class Call:
    """A method call: receiver place, receiver value, arguments."""
    __slots__ = ('it', 'recv', 'v', 'args', 'targs', 'expect', 'node', 'env', 'name')

    def a(self, i):
        return deref(self.args[i])

    def set(self, x):
        from .interp import inner
        inner(self.recv).set(x)


def fn(*names):
    def deco(f):
        for n in names:
            EXT_FN[n] = f
        return f
    return deco


def m(kind, *names):
    def deco(f):
        for k in kind.split('|'):
            for n in names:
                BUILTIN[(k, n)] = f
        return f
    return deco


def has_builtin(tid, name):
    return (kind_of_tid(tid), name) in BUILTIN or ('any', name) in BUILTIN


def ext_field_ty(ty, name):
    return EXT_FIELDS.get((ty[0], name)) if ty is not None else None


def ext_payload_ty(tid, variant, i):
    l = EXT_PAYLOAD.get((tid, variant))
    return l[i] if l and i < len(l) else None


# ------------------------------------------------------------------ conversions
def default_of(it, ty):
    if ty is None:
        raise Unsupported('default of unknown type')
    n = ty[0]
    d = it.typedef(ty)
    if d is not None:
        c = it.w.methods.get((d.id, 'default'))
        if c:
            return it.call_def(c[0][1], [], selfty=ty)
        if d.kind == 'struct':
            if not it.derives(d, 'Default'):
                raise Unsupported(f'no Default for {d.id}')
            fr = it.struct_frame(d, ty)
            return Struct(d.id, {f['name']: default_of(it, it.ty(f['ty'], fr)) for f in d.node['fields']}, tuple(ty.args))
        if d.kind == 'enum':
            for v in d.node['variants']:
                if any(a.strip() == 'default' for a in v['attrs']):
                    return Enum(d.id, v['name'], [])
            raise Unsupported(f'no Default for {d.id}')
    if n == 'str' or n == 'Bytes':
        return Str('')
    if n in INT_TYPES:
        return 0
    if n in ('f32', 'f64'):
        return 0
    if n == 'bool':
        return False
    if n == 'Option':
        return none()
    if n in ('Vec', 'Set'):
        return Vec([], n)
    if n == 'Map':
        return Map(vty=ty.arg(1))
    if n == 'unit':
        return UNIT
    if n == 'Duration':
        return 0
    if n == 'tuple':
        return Tup([default_of(it, t) for t in ty.args])
    if n == 'Path':
        return Str('')
    if n == 'cell':
        return Native('cell', v=default_of(it, ty.arg(0)))
    f = EXT_FN.get(n.split('::')[-1] + '::default')
    if f:
        return f(it, [], (), ty)
    return Term(n.split('::')[-1] + '::default', (), ty)


def convert(it, v, ty):
    """From::from / .into() towards ty."""
    v = deref(v)
    if ty is None:
        return v
    tid = it.tyid(v)
    n = ty[0]
    if tid == n:
        return v
    c = it.w.methods.get((n, 'from'))
    if c:
        fits = []
        for im, d in c:
            pt = it.ty(d.node['params'][0]['ty'], it.impl_frame(d, ty))
            if pt is None or tid is None:
                continue
            if pt[0] == tid or (tid == 'int' and is_int_ty(pt)) or (tid == 'Bytes' and pt[0] == 'str'):
                fits.append(d)
        if fits:
            return it.call_def(fits[0], [v], selfty=ty)
        # enum variants with #[from]
    d = it.typedef(ty)
    if d is not None and d.kind == 'enum':
        for vn in d.node['variants']:
            for f in vn['fields']:
                if any(a.startswith('from') for a in f['attrs']):
                    ft = it.ty(f['ty'], it.struct_frame(d, ty))
                    if ft is not None and (ft[0] == tid or (tid is None and False)):
                        return Enum(d.id, vn['name'], {f['name']: v} if vn['kind'] == 'named' else [v])
    if tid is not None:
        for im, dd in it.w.methods.get((tid, 'into'), []):
            return it.call_def(dd, [v])
    if n in ('str',) and isinstance(v, (Str, Chr)):
        return S(v)
    if n == 'Bytes' and isinstance(v, Str):
        return v
    if n == 'Path' and isinstance(v, (Str, Term)):
        return it.ctx.sstr(v) if isinstance(v, Str) or v.ty is None or v.ty[0] in ('str', 'Path') else v
    if n == 'Option' and tid != 'Option':
        return some(convert(it, v, ty.arg(0)))
    if n in INT_TYPES or n in ('f64', 'f32'):
        if isinstance(v, bool):
            return int(v)
        return v
    if n == 'Vec' and isinstance(v, (Vec, Iter)):
        return v
    if n in ('Map', 'Set') and isinstance(v, (Vec, Iter)):
        return collect(it, v, ty)
    if n == 'anyhow':
        return v
    if n == 'cell':
        return Native('cell', v=v)
    if n.startswith('dyn:') or n in ('fn', 'T'):
        return v
    if isinstance(v, Term) and v.ty is None:
        if d is not None or '::' in n:
            return Term('into', (v, n.split('::')[-1]), ty)
        return Term(v.op, v.args, ty)
    h = EXT_FN.get(n.split('::')[-1] + '::from')
    if h:
        return h(it, [v], (), ty)
    return Term('into', (it.freeze(v), n.split('::')[-1]), ty)


def parse(it, v, ty):
    """str::parse::<ty>() -> Result"""
    s = it.ctx.sstr(v)
    if ty is None:
        raise Unsupported('parse to unknown type')
    d = it.typedef(ty)
    if d is not None:
        c = it.w.methods.get((d.id, 'from_str'))
        if c:
            return it.call_def(c[0][1], [s], selfty=ty)
    if ty[0] == 'str':
        return ok(s)
    if ty[0] in INT_TYPES and s.lit() is not None:
        t = s.lit()
        if t.lstrip('+').isdigit() and int(t) < 2 ** INT_BITS[ty[0]]:
            return ok(int(t))
        return err(Term('parse_error', (t,)))
    n = ty[0].split('::')[-1]
    base = it.freeze(s)
    if n == 'Uuid' and isinstance(base, Term):
        # parsing ignores case; printing and parsing again is the identity
        while base.op in ('lower', 'alower', 'upper', 'aupper'):
            base = base.args[0]
        if base.op in ('uuid_simple', 'uuid_hyph'):
            return ok(base.args[0])
    t = Term('parse', (base, n), Ty('Result', ty, None))
    return it.force(t)


def collect(it, src, ty):
    items = list(iterate(it, src))
    n = ty[0] if ty is not None else 'Vec'
    if n in ('OptOrRes',):
        n = 'Result' if items and it.tyid(items[0]) == 'Result' else 'Option'
    if n == 'str':
        return S(*[display(it, x) for x in items])
    if n == 'Path':
        return path_join_all(it, items)
    if n in ('Result', 'Option'):
        out = []
        for x in items:
            x = it.force(x, ty)
            if not isinstance(x, Enum):
                x = it.force(x, Ty('Result', None, None) if n == 'Result' else Ty('Option', None))
            if x.variant in ('Err', 'None'):
                return x
            out.append(x.fields[0])
        v = collect(it, Vec(out), ty.arg(0))
        return ok(v) if n == 'Result' else some(v)
    if n == 'Set':
        out = Vec([], 'Set')
        for x in items:
            set_insert(it, out, x)
        return out
    if n == 'Map':
        mp = Map()
        for x in items:
            x = it.force(x, Ty('tuple', None, None))
            map_insert(it, mp, x.items[0], x.items[1])
        return mp
    d = it.typedef(ty) if ty is not None else None
    if d is not None:
        c = it.w.methods.get((d.id, 'from_iter'))
        if c:
            return it.call_def(c[0][1], [Vec(items)], selfty=ty)
    if n == 'Bytes':
        return Vec(items)
    return Vec(items)


def set_insert(it, s, x):
    for y in s.items:
        if it.eq(x, y):
            return False
    s.items.append(x)
    return True


def map_find(it, mp, k):
    for i, (a, b) in enumerate(mp.items):
        if it.same(a, k):
            return i
    for i, (a, b) in enumerate(mp.items):
        if it.eq(a, k):
            return i
    return None


def map_insert(it, mp, k, v):
    i = map_find(it, mp, k)
    if i is not None:
        old = mp.items[i][1]
        mp.items[i][1] = v
        return some(old)
    mp.items.append([k, v])
    return none()


def path_join_all(it, items):
    cur = Str('')
    for x in items:
        cur = path_join(it, cur, x)
    return cur


def path_join(it, a, b):
    a, b = it.ctx.sstr(pathstr(it, a)), it.ctx.sstr(pathstr(it, b))
    if not a.parts:
        return b
    if b.parts and isinstance(b.parts[0], str) and b.parts[0].startswith('/'):
        return b
    if not b.parts:
        return S(a, '/')
    if isinstance(a.parts[-1], str) and a.parts[-1].endswith('/'):
        return S(a, b)
    return S(a, '/', b)


def pathstr(it, v):
    v = deref(v)
    if isinstance(v, Term) and v.ty is not None and v.ty[0] not in ('str', 'Path', 'Bytes'):
        tid = it.tyid(v)
        for nm in ('as_ref', 'path', 'deref'):
            d = it.find_method_impl(tid, nm)
            if d is not None:
                return pathstr(it, it.call_def(d, [v]))
    if isinstance(v, Struct):
        for nm in ('as_ref', 'deref', 'path'):
            d = it.find_method_impl(v.ty, nm)
            if d is not None:
                return pathstr(it, it.call_def(d, [v]))
    if isinstance(v, Native) and hasattr(v, 'path'):
        return v.path
    return v


def cast(it, v, t):
    if t is None:
        return v
    if isinstance(v, Native) and hasattr(v, 'cast_to'):
        return v.cast_to(t)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Chr):
        return ord(v.c) if t[0] in INT_TYPES else v
    if t[0] in ('f32', 'f64'):
        return v if isinstance(v, (int, Fraction)) else Term('as', (it.freeze(v), t[0]), t)
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, int):
        if t[0] in INT_BITS:
            b = INT_BITS[t[0]]
            v &= (1 << b) - 1
            if t[0][0] == 'i' and v >= 1 << (b - 1):
                v -= 1 << b
            return v
        if t[0] == 'char':
            return Chr(chr(v))
        return v
    if isinstance(v, Term):
        s = v.ty
        if s is not None and s[0] in INT_BITS and t[0] in INT_BITS:
            if s[0] == t[0]:
                return v
            if INT_BITS[s[0]] <= INT_BITS[t[0]] and (s[0][0] == 'u' or t[0][0] == 'i'):
                return v           # widening keeps the value
        if s is None and t[0] in ('u64', 'i64', 'u128', 'usize'):
            return v
        if v.op in ('len', 'count', 'lin') and t[0] in ('u64', 'usize', 'i64'):
            return v
        if s is not None and s[0] == 'bool':
            return 1 if it.ctx.truth(v) else 0
        if it.typedef(s) is not None and it.typedef(s).kind == 'enum':
            v = it.force(v)
        elif t[0] in INT_BITS or t[0] in ('char',):
            return Term('as', (v, t[0]), t)
        else:
            return v if v.ty else Term(v.op, v.args, t)
    if isinstance(v, Enum):
        d = it.w.typedefs.get(v.ty)
        if d is not None and t[0] in INT_BITS:
            n = 0
            for x in d.node['variants']:
                if x['disc'] is not None:
                    from .interp import Env, Frame
                    n = it.ev(x['disc'], Env(frame=Frame(d.module)))
                if x['name'] == v.variant:
                    return n
                n += 1
    return v


def char_in_range(it, c, pat, env):
    lo, hi = it.ev(pat['lo'], env), it.ev(pat['hi'], env)
    if isinstance(c, Chr):
        return lo.c <= c.c <= hi.c if pat['incl'] else lo.c <= c.c < hi.c
    return it.ctx.choose(('charrange', c, lo.c, hi.c, pat['incl']), [True, False])


# ------------------------------------------------------------------- iteration
def iterate(it, v):
    """Python generator over the elements of an abstract value."""
    ref = v if isinstance(v, Ref) else None
    v = it.force(v)
    if isinstance(v, Iter):
        yield from v
        return
    if isinstance(v, Vec):
        if ref is not None:
            i = 0
            while i < len(v.items):
                x = v.items[i]
                if isinstance(x, (Struct, Vec, Map, Native, Ref)):
                    yield x
                else:
                    yield it.slot_ref(v.items, i)
                i += 1
            return
        for x in list(v.items):
            yield x
        return
    if isinstance(v, Map):
        if v.base is not None:
            raise Unsupported('iteration over a partly known map')
        for kv in v.items:
            yield Tup([kv[0], kv[1] if ref is None else it.slot_ref(kv, 1)])
        return
    if isinstance(v, Enum) and v.ty == 'Option':
        if v.variant == 'Some':
            yield v.fields[0]
        return
    if isinstance(v, Enum) and v.ty == 'Result':
        if v.variant == 'Ok':
            yield v.fields[0]
        return
    if isinstance(v, Native) and v.kind == 'range':
        yield from range_iter(it, v)
        return
    if isinstance(v, Native) and hasattr(v, 'iterate'):
        yield from v.iterate()
        return
    if isinstance(v, Str):
        raise Unsupported('iteration over a string')
    tid = it.tyid(v)
    if tid in it.w.typedefs:
        d = it.find_method_impl(tid, 'next')
        if d is not None:
            n = 0
            box = temp_ref(v) if ref is None else ref
            while True:
                r = it.force(it.call_def(d, [box]))
                if r.variant == 'None':
                    return
                yield r.fields[0]
                n += 1
                if n > 64:
                    raise Unsupported('iterator does not end')
        for nm in ('into_iter', 'iter'):
            d = it.find_method_impl(tid, nm)
            if d is not None:
                yield from iterate(it, it.call_def(d, [v]))
                return
    if isinstance(v, Term):
        # a collection of unknown type
        if v.ty is not None and v.ty[0] == 'Map':
            n = it.ctx.choose(('count', v), list(range(it.ctx.k + 1)))
            for i in range(n):
                yield Tup([Term('key', (v, i), v.ty.arg(0)), Term('value', (v, i), v.ty.arg(1))])
            return
        el = v.ty.arg(0) if v.ty is not None and v.ty[0] in ('Vec', 'Set', 'Iter') else None
        if v.ty is not None and v.ty[0] == 'Bytes':
            el = Ty('u8')
        n = it.ctx.choose(('count', v), list(range(it.ctx.k + 1)))
        for i in range(n):
            yield it.lift(Term('elem', (v, i), el))
        return
    raise Unsupported(f'iteration over {show(v)}')


def temp_ref(v):
    box = [v]

    def s(x):
        box[0] = x
    return Ref(lambda: box[0], s)


def range_iter(it, r):
    lo = r.lo
    if r.hi is None:
        i = lo
        while True:
            yield i
            i = add(i, 1)
            if isinstance(i, int) and i > 5000:
                raise Unsupported('unbounded range')
    if isinstance(lo, Chr) and isinstance(r.hi, Chr):
        for c in range(ord(lo.c), ord(r.hi.c) + (1 if r.incl else 0)):
            yield Chr(chr(c))
        return
    hi = add(r.hi, 1) if r.incl else r.hi
    if isinstance(lo, int) and isinstance(hi, int):
        if hi - lo > 5000:
            raise Unsupported('long range')
        for i in range(lo, hi):
            yield i
        return
    i = lo
    n = 0
    while it.ctx.lt(i, hi):
        yield i
        i = add(i, 1)
        n += 1
        if n > it.ctx.k:
            raise Infeasible()


def to_iter(it, v):
    v0 = deref(v)
    if isinstance(v0, Iter):
        return v0
    return Iter(iterate(it, v))


# -------------------------------------------------------------------- indexing
def index(it, v, idx, e=None):
    v = it.force(v)
    if isinstance(idx, Native) and idx.kind == 'range':
        return slice_range(it, v, idx, must=True)
    if isinstance(v, Vec):
        idx = it.force(idx)
        if isinstance(idx, int):
            if not 0 <= idx < len(v.items):
                raise RustPanic(f'index {idx} out of range')
            return v.items[idx]
        for i in range(len(v.items)):
            if it.ctx.int_eq(idx, i):
                return v.items[i]
        raise RustPanic('index out of range')
    if isinstance(v, Map):
        i = map_find(it, v, idx)
        if i is None:
            raise RustPanic('no such key')
        return v.items[i][1]
    if isinstance(v, Str) and isinstance(idx, int):
        r = it.ctx.split_at(v, idx)
        if r is None:
            raise RustPanic('index out of range')
        c = it.ctx.norm(r[1])
        if not c.parts:
            raise RustPanic('index out of range')
        if isinstance(c.parts[0], str):
            return ord(c.parts[0][0])
    tid = it.tyid(v)
    if tid in it.w.typedefs:
        d = it.find_method_impl(tid, 'index')
        if d is not None:
            return it.call_def(d, [v, idx])
        d = it.find_method_impl(tid, 'deref')
        if d is not None:
            return index(it, deref(it.call_def(d, [v])), idx, e)
    el = None
    if isinstance(v, Term) and v.ty is not None:
        el = v.ty.arg(0) if v.ty[0] == 'Vec' else v.ty.arg(1) if v.ty[0] == 'Map' else Ty('u8') if v.ty[0] == 'Bytes' else None
    return Term('index', (it.freeze(v), it.freeze(idx)), el)


def slice_range(it, v, r, must):
    """v[range]; with must a failure panics, otherwise returns None."""
    lo = 0 if r.lo is None else r.lo
    hi = r.hi
    if hi is not None and r.incl:
        hi = add(hi, 1)

    def fail(msg):
        if must:
            raise RustPanic(msg)
        return None
    if isinstance(v, Native) and hasattr(v, 'slice'):
        r = v.slice(lo, hi)
        return fail('slice out of range') if r is None else r
    if isinstance(v, Term) and (v.ty is None or v.ty[0] not in ('str', 'Path', 'Bytes')):
        fv = it.force(v)
        if isinstance(fv, Vec):
            v = fv
        elif v.ty is None:
            if must:
                return Term('slice', (v, it.freeze(lo), it.freeze(hi)), None)
    if isinstance(v, Vec):
        h = len(v.items) if hi is None else hi
        if not isinstance(lo, int) or not isinstance(h, int):
            return Term('slice', (it.freeze(v), it.freeze(lo), it.freeze(hi)), Ty('Vec', None))
        if lo > h or h > len(v.items):
            return fail('slice out of range')
        return Vec(v.items[lo:h], v.kind)
    isbytes = isinstance(v, Term) and v.ty is not None and v.ty[0] == 'Bytes'
    s = it.ctx.sstr(v)
    if hi is not None:
        p = it.ctx.split_at(s, hi)
        if p is None:
            return fail('slice end out of range')
        if not isbytes and not it.ctx.boundary(s, hi):
            return fail('slice end inside a character')
        left = p[0]
    else:
        left = s
    if isinstance(lo, int) and lo == 0:
        return it.ctx.norm(left)
    q = it.ctx.split_at(left, lo)
    if q is None:
        return fail('slice start out of range')
    if not isbytes and not it.ctx.boundary(left, lo):
        return fail('slice start inside a character')
    return it.ctx.norm(q[1])


def index_place(it, base, idx, e):
    idx = deref(idx)
    v = it.force(base)
    if isinstance(idx, Native) and idx.kind == 'range':
        return temp_ref(slice_range(it, v, idx, must=True))
    if isinstance(v, Vec) and not isinstance(idx, int):
        for i in range(len(v.items)):
            if it.ctx.int_eq(idx, i):
                idx = i
                break
        else:
            raise RustPanic('index out of range')
    if isinstance(v, Vec) and isinstance(deref(base), Term):
        from .interp import inner
        if isinstance(base, Ref):
            inner(base).set(v)
    if isinstance(v, Vec):
        if not 0 <= idx < len(v.items):
            raise RustPanic(f'index {idx} out of range')
        return it.slot_ref(v.items, idx)
    if isinstance(v, Map):
        i = map_find(it, v, idx)
        if i is None:
            raise RustPanic('no such key')
        return it.slot_ref(v.items[i], 1)
    return temp_ref(index(it, v, idx, e))


# ---------------------------------------------------------------------- macros
SILENT = ('trace', 'debug', 'info', 'warn', 'error', 'event', 'span', 'trace_span', 'debug_span', 'info_span',
          'metric', 'configure_scope', 'println', 'eprintln', 'print', 'eprint', 'debug_assert', 'debug_assert_eq', 'debug_assert_ne', 'dbg')


def macro(it, e, env, expect):
    name = e['name'].split('::')[-1]
    args = e['args']
    h = it.models.get(name + '!')
    if h:
        return h(it, e, env)
    if name in ('trace_span', 'debug_span', 'info_span', 'span'):
        return Term('span', ())
    if name in SILENT:
        return UNIT
    if name in ('format', 'format_args'):
        return F.format_args(it, e, args, env)
    if name in ('write', 'writeln'):
        target = it.place(args[0], env)
        s = F.format_args(it, e, args[1:], env) if len(args) > 1 else Str('')
        if name == 'writeln':
            s = S(s, '\n')
        return write_to(it, target, s)
    if name == 'vec':
        t = expect.arg(0) if expect is not None and expect[0] == 'Vec' else None
        return Vec([it.ev(a, env, t) for a in (args or [])])
    if name in ('panic', 'unreachable', 'todo', 'unimplemented'):
        raise RustPanic(name, (env.frame.name, e.get('line')))
    if name in ('assert', ):
        if not it.ctx.truth(it.ev(args[0], env)):
            raise RustPanic('assert', (env.frame.name, e.get('line')))
        return UNIT
    if name in ('assert_eq', 'assert_ne'):
        r = it.eq(it.ev(args[0], env), it.ev(args[1], env))
        if r != (name == 'assert_eq'):
            raise RustPanic(name, (env.frame.name, e.get('line')))
        return UNIT
    if name == 'anyhow':
        if args and args[0]['k'] == 'lit':
            return Term('anyhow', (F.format_args(it, e, args, env),), Ty('anyhow'))
        return it.val(args[0], env)
    if name == 'bail':
        from .interp import ReturnEx
        if args and args[0]['k'] == 'lit':
            v = Term('anyhow', (F.format_args(it, e, args, env),), Ty('anyhow'))
        else:
            v = it.val(args[0], env) if args else Term('anyhow', ())
        raise ReturnEx(err(v))
    if name == 'ensure':
        from .interp import ReturnEx
        if not it.ctx.truth(it.ev(args[0], env)):
            v = Term('anyhow', (F.format_args(it, e, args[1:], env),), Ty('anyhow')) if len(args) > 1 and args[1]['k'] == 'lit' else it.val(args[1], env) if len(args) > 1 else Term('anyhow', ())
            raise ReturnEx(err(v))
        return UNIT
    if name == 'pin':
        # std::pin::pin!(expr) or tokio::pin!(ident)
        if args:
            return it.ev(args[0], env)
        return UNIT
    if name == 'env' or name == 'option_env':
        return Str((Term('env', (args[0]['v'],), T_STR),))
    if name == 'concat':
        return S(*[it.ctx.sstr(it.val(a, env)) if not isinstance(it.val(a, env), int) else str(it.val(a, env)) for a in args])
    if name == 'cfg':
        return 'test' not in e['toks'] if 'debug_assertions' not in e['toks'] else it.ctx.truth(Term('cfg', (e['toks'],), T_BOOL))
    if name == 'join':
        return Tup([it.await_value(it.ev(a, env)) for a in args])
    if name == 'stringify':
        return Str(e['toks'])
    if args is not None and name not in ('json',):
        try:
            return Term(name + '!', tuple(it.freeze(it.ev(a, env)) for a in args))
        except Unsupported:
            pass
    return Term(name + '!', (e['toks'],))


def write_to(it, target, s):
    from .interp import inner
    t = inner(target) if isinstance(target, Ref) else temp_ref(target)
    v = t.get()
    if isinstance(v, Native) and v.kind == 'formatter':
        v.ref.set(S(v.ref.get(), s))
        return ok()
    if isinstance(v, Native) and hasattr(v, 'write_str'):
        return v.write_str(s)
    if isinstance(v, Str):
        t.set(S(v, s))
        return ok()
    if isinstance(v, Term) and v.ty == T_STR:
        t.set(S(Str((v,)), s))
        return ok()
    if isinstance(v, Vec):
        t.set(S(s) if not v.items else S(it.ctx.sstr(v.items[0]), s))
        return ok()
    if it.find_method_impl(it.tyid(v), 'write_str') is not None:
        return it.force(it.method(target, 'write_str', [s]))
    hm = it.mmodels.get('write_fmt')
    if hm:
        return hm(it, target, [s])
    it.ctx.effect('write', it.freeze(v), s)
    return it.force(Term('write_result', (it.freeze(v), s, len(it.ctx.trace)), Ty('Result', Ty('unit'), Ty('io::Error'))))


# --------------------------------------------------------------- external calls
def ext_const(it, segs, ty=None):
    n2 = '::'.join(segs[-2:])
    if n2 in EXT_CONST:
        return EXT_CONST[n2]
    last = segs[-1]
    if len(segs) >= 2 and segs[-2] in INT_BITS:
        b = INT_BITS[segs[-2]]
        signed = segs[-2][0] == 'i'
        if last == 'MAX':
            return 2 ** (b - 1) - 1 if signed else 2 ** b - 1
        if last == 'MIN':
            return -2 ** (b - 1) if signed else 0
        if last == 'BITS':
            return b
    if last == 'None' and len(segs) == 1:
        return none()
    if last in ('Some', 'Ok', 'Err') and (len(segs) == 1 or segs[-2] in ('Option', 'Result')):
        return FnVal(last, lambda args: Enum('Option' if last == 'Some' else 'Result', last, args))
    if n2 == 'Option::None':
        return none()
    if len(segs) >= 2 and segs[-2] in EXT_ENUMS and last in EXT_ENUMS[segs[-2]] and segs[-2] not in ('Cow', 'ControlFlow', 'Bound'):
        return Enum(segs[-2], last, [])
    if n2 == 'Bound::Unbounded':
        return Enum('Bound', 'Unbounded', [])
    if len(segs) >= 2 and segs[-2][:1].isupper() and last.isupper() and n2 not in EXT_FN:
        # associated constant or unit-like constant
        return Term(n2, (), None)
    if len(segs) >= 2 and segs[-2][:1].isupper() and last[:1].isupper() and n2 not in EXT_FN and not it.models.get(n2):
        # unit or tuple variant of a foreign enum: a term that can be called
        return Native('extctor', term=Term(n2, (), Ty(segs[-2])), call=lambda args: Term(n2, tuple(it.freeze(a) for a in args), Ty(segs[-2])))
    if len(segs) == 1 and last.isupper():
        return Term(last, (), None)
    if len(segs) > 1 and last.isupper() and len(last) > 1:
        return Term(n2, (), None)
    return None


def ext_call(it, segs, args, targs=(), expect=None, ty=None):
    n2 = '::'.join(segs[-2:])
    n1 = segs[-1]
    for n in ('::'.join(segs[-3:]), n2, n1 if len(segs) == 1 else None):
        if n and n in it.models:
            return it.models[n](it, args)
    for n in ('::'.join(segs[-3:]), n2):
        if n in EXT_FN:
            return EXT_FN[n](it, args, targs, expect or None) if n not in TYPED_FN else EXT_FN[n](it, args, targs, expect, ty)
    if len(segs) == 1 and n1 in EXT_FN:
        return EXT_FN[n1](it, args, targs, expect)
    if n1 == 'default' and not args:
        t = ty or expect
        if segs[0] == 'Default':
            t = expect
        if t is None and len(segs) >= 2:
            t = Ty(segs[-2])
        return default_of(it, normalize_ty(it, t))
    if n1 == 'from' and len(args) == 1:
        t = ty if ty is not None else (expect if segs[-2:-1] == ('From',) else ext_ty(segs[-2]) if len(segs) > 1 else expect)
        return convert(it, args[0], t)
    if n1 == 'from_str' and len(args) == 1:
        return parse(it, args[0], ty or Ty(segs[-2]))
    if n1 == 'from_iter' and len(args) == 1:
        return collect(it, args[0], ty or ext_ty(segs[-2]))
    if n1 == 'try_from' and len(args) == 1:
        t = ty or ext_ty(segs[-2])
        v = deref(args[0])
        if isinstance(v, int) and t[0] in INT_BITS:
            lo, hi = (0, 2 ** INT_BITS[t[0]] - 1) if t[0][0] == 'u' else (-2 ** (INT_BITS[t[0]] - 1), 2 ** (INT_BITS[t[0]] - 1) - 1)
            return ok(v) if lo <= v <= hi else err(Term('TryFromIntError'))
        return Term('try_from', (it.freeze(v), t[0]), Ty('Result', t, None))
    if n1 in ('clone', 'cloned') and len(args) == 1:
        return it.clone(args[0])
    # Type::method(value, ...) of a builtin or external type
    if args and len(segs) >= 2:
        a0 = deref(args[0])
        tid = it.tyid(a0)
        if has_builtin(tid, n1) or (tid, n1) in EXT_METHOD or it.mmodels.get(n1) or (tid in it.w.typedefs and it.w.methods.get((tid, n1))):
            if segs[-2][:1].isupper() or segs[-2] in INT_TYPES or segs[-2] in ('str', 'slice', 'char'):
                return it.method(args[0] if isinstance(args[0], Ref) else temp_ref(args[0]), n1, list(args[1:]), targs, expect)
    sig = it.sigs.get(n2) or it.sigs.get(n1) or EXT_SIG.get(n2)
    fr = tuple(it.freeze(a) for a in args)
    t = Term(n2 if len(segs) > 1 else n1, fr, sig or (Ty(segs[-2]) if len(segs) > 1 and n1 == 'new' and segs[-2][:1].isupper() else None))
    it.ctx.effect('call', t.op, *fr)
    return t


TYPED_FN = set()


def ext_ty(n):
    from .interp import STRLIKE, VECLIKE, SETLIKE, MAPLIKE
    if n in STRLIKE:
        return T_STR
    if n in VECLIKE:
        return Ty('Vec', None)
    if n in SETLIKE:
        return Ty('Set', None)
    if n in MAPLIKE:
        return Ty('Map', None, None)
    if n in ('PathBuf', 'Path'):
        return Ty('Path')
    return Ty(n)


def normalize_ty(it, t):
    if t is None:
        return None
    x = ext_ty(t[0])
    if x[0] != t[0]:
        return x
    return t


# -------------------------------------------------------------- method dispatch
KINDS = {'str': 'str', 'Path': 'str', 'Bytes': 'str', 'int': 'int', 'bool': 'bool', 'char': 'char', 'Option': 'opt', 'Result': 'res', 'Vec': 'vec',
         'Set': 'set', 'Map': 'map', 'Iter': 'iter', 'tuple': 'tuple', 'Ordering': 'ordering', 'fn': 'fn', 'Duration': 'int', 'SystemTime': 'int', 'Instant': 'int'}
for _t in INT_TYPES:
    KINDS[_t] = 'int'

OPT_ONLY = {'is_some', 'is_none', 'ok_or', 'ok_or_else', 'is_some_and', 'is_none_or', 'get_or_insert_with', 'as_deref', 'as_deref_mut', 'copied', 'zip', 'xor'}
RES_ONLY = {'is_ok', 'is_err', 'map_err', 'ok', 'err', 'is_ok_and', 'is_err_and', 'unwrap_err', 'inspect_err', 'context', 'with_context', 'or_else', 'expect', 'unwrap'}
ITER_METHODS = {'map', 'filter', 'filter_map', 'flat_map', 'collect', 'enumerate', 'zip', 'chain', 'any', 'all', 'find', 'find_map', 'fold', 'for_each',
                'count', 'last', 'nth', 'position', 'skip', 'take', 'rev', 'peekable', 'sum', 'min', 'max', 'max_by_key', 'min_by_key', 'cloned', 'copied',
                'next', 'try_fold', 'partition', 'take_while', 'skip_while', 'inspect', 'flatten', 'step_by', 'unzip', 'product', 'rposition', 'try_for_each'}


def kind_of_tid(tid):
    return KINDS.get(tid, tid)


def guard_of(r):
    from .coll import GuardRef
    while isinstance(r, Ref):
        if isinstance(r, GuardRef):
            return r
        r = r.get()


UNPOISON = ('unwrap', 'expect', 'unwrap_or_else', 'map_err')


def method(it, recv, name, args, targs=(), expect=None, node=None, env=None):
    if name in UNPOISON or name == 'ok':
        g = guard_of(recv)
        if g is not None:
            r = Ref(g.get, g.set)
            return some(r) if name == 'ok' else g if name == 'map_err' else r
    v = deref(recv)
    tid = it.tyid(v)
    c = Call()
    c.it, c.recv, c.v, c.args, c.targs, c.expect, c.node, c.env, c.name = it, recv, v, args, targs, expect, node, env, name
    # the check's own models win
    h = it.mmodels.get(f'{(tid or "?").split("::")[-1]}.{name}') or it.mmodels.get(name)
    if h:
        r = h(it, recv, args)
        if r is not NotImplemented:
            return r
    if tid in it.w.typedefs or (tid is not None and tid.startswith('dyn:')):
        # cells, futures etc. are transparent
        found, r = it.user_method(v, recv, name, args, targs, expect)
        if found:
            return r
    # normalise terms to structured values where the method needs it
    if isinstance(v, Term):
        v0 = v
        v = it.ctx.norm(v)
        ty = getattr(v, 'ty', None) or v0.ty
        if isinstance(v, Term) and v.ty is None and ty is not None:
            v = Term(v.op, v.args, ty)
        c.v = v
        tid = it.tyid(v)
    if isinstance(v, Future) and name not in ('boxed', 'boxed_local', 'instrument', 'bind_hub', 'in_current_span', 'shared', 'await', 'map', 'then', 'unwrap_or_else', 'fuse', 'timeout'):
        pass
    x = EXT_METHOD.get((tid, name))
    if x:
        return x(c)
    kind = kind_of_tid(tid)
    if isinstance(v, Native):
        x = BUILTIN.get((v.kind, name))
        if x is None and v.kind == 'cell':
            if (('any', name) not in BUILTIN) or name in ('get', 'set'):
                return method(it, Ref(lambda: v.v, lambda y: setattr(v, 'v', y)), name, args, targs, expect, node, env)
        if x is None and v.kind == 'range':
            x = BUILTIN.get(('iter', name))
            if x:
                c.v = Iter(range_iter(it, v))
        if x:
            return x(c)
    if isinstance(v, Term) and v.ty is not None and v.ty[0] == 'cell':
        inner_t = Term(v.op, v.args, v.ty.arg(0))
        if name in ('lock', 'read', 'write', 'into_inner', 'try_lock'):
            from .coll import GuardRef
            box = temp_ref(inner_t)
            return GuardRef(box.get, box.set)
        if name in ('borrow', 'borrow_mut', 'get_mut', 'load', 'get'):
            return inner_t
    if kind in ('opt', 'res') and isinstance(v, Term):
        if (kind, name) in BUILTIN:
            if name in ('as_ref', 'as_deref', 'as_mut', 'clone', 'cloned', 'copied', 'to_owned', 'as_deref_mut') and kind == 'opt' and name not in ('as_mut', 'as_deref_mut'):
                return v
            c.v = it.force(v)
            if isinstance(recv, Ref) and isinstance(c.v, Enum) and name in ('as_mut', 'as_deref_mut', 'take', 'insert', 'get_or_insert_with', 'get_or_insert'):
                c.set(c.v)
            return BUILTIN[(kind, name)](c)
    if tid in it.w.typedefs:
        d = it.w.typedefs[tid]
        # automatic dereference of newtype wrappers
        for nm in ('deref', 'deref_mut'):
            dd = it.find_method_impl(tid, nm)
            if dd is not None and name not in ('clone', 'to_string', 'eq', 'ne', 'borrow', 'into', 'to_owned'):
                t = it.call_def(dd, [recv if dd.node['self'] == '&mut self' else v])
                return method(it, t if isinstance(t, Ref) else temp_ref(t), name, args, targs, expect, node, env)
        if name in ITER_METHODS and it.find_method_impl(tid, 'next') is not None:
            c.v = Iter(iterate(it, recv))
            return BUILTIN[('iter', name)](c)
    if kind and (kind, name) in BUILTIN:
        if isinstance(v, Term) and kind in ('vec', 'set', 'tuple'):
            f = BUILTIN[(kind, name)]
            if (kind, name) in SYMBOLIC_OK:
                return SYMBOLIC_OK[(kind, name)](c)
            c.v = it.force(v)
            if isinstance(recv, Ref) and not isinstance(c.v, Term):
                c.set(c.v)
        return BUILTIN[(kind, name)](c)
    found, r = it.user_method(v, recv, name, args, targs, expect)
    if found:
        return r
    if name == 'write_fmt' and len(args) == 1 and (isinstance(v, (Str, Vec)) or v.__class__ is Term and v.ty == T_STR or it.find_method_impl(tid, 'write_str') is not None):
        return write_to(it, recv, it.ctx.sstr(deref(args[0])))
    if isinstance(v, Vec) and v.kind == 'Set' and ('vec', name) in BUILTIN:
        return BUILTIN[('vec', name)](c)
    if isinstance(v, Term) and v.ty is None:
        if name in OPT_ONLY or (name in RES_ONLY):
            v2 = Term(v.op, v.args, Ty('Option', None) if name in OPT_ONLY else Ty('Result', None, None))
            k2 = 'opt' if name in OPT_ONLY else 'res'
            if expect is not None and name in ('unwrap', 'expect'):
                v2 = Term(v.op, v.args, Ty('Result', expect, None))
            known = it.ctx.known(('variant', v))
            if known in ('Some', 'None'):
                k2, v2 = 'opt', Term(v.op, v.args, Ty('Option', None))
            c.v = it.force(v2)
            if (k2, name) in BUILTIN:
                return BUILTIN[(k2, name)](c)
        if name in ITER_METHODS and name not in ('map', 'find', 'last', 'count', 'take', 'zip', 'next', 'filter', 'min', 'max', 'inspect', 'flatten', 'nth', 'chain', 'copied', 'cloned', 'all', 'any', 'position', 'get'):
            c.v = Iter(iterate(it, v))
            return BUILTIN[('iter', name)](c)
    if isinstance(v, Term) and tid is not None and tid.startswith('dyn:') and name in ITER_METHODS and 'Iter' in tid:
        c.v = Iter(iterate(it, v))
        return BUILTIN[('iter', name)](c)
    if isinstance(v, Term) and tid in ('slice', 'IntoIter'):
        pass
    if ('any', name) in BUILTIN:
        return BUILTIN[('any', name)](c)
    if isinstance(v, Native) and hasattr(v, 'm_' + name):
        return getattr(v, 'm_' + name)(*args)
    if isinstance(v, (Term, Native, Closure, FnVal, Future)) or v is UNIT:
        sig = it.sigs.get(f'{tid}.{name}') or it.sigs.get('.' + name) or EXT_SIG.get(f'{tid}.{name}') or EXT_SIG.get('.' + name)
        fr = (it.freeze(v),) + tuple(it.freeze(a) for a in args)
        t = Term('.' + name, fr, sig)
        it.ctx.effect('method', name, *fr)
        return it.lift(t)
    raise Unsupported(f'method {name} on {show(v)} (line {node.get("line") if node else "?"})')


SYMBOLIC_OK = {}

from . import coll, strm, ext  # noqa: E402  (register transfer functions)
