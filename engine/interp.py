"""Abstract interpretation of function bodies over the domain of dom.py.

The interpreter follows the source's syntax tree. Values that are not fixed by the source are
uninterpreted terms; where control flow depends on one, the analysis is partitioned (Ctx.choose).
Calls into the workspace are followed; calls that leave it are transfer functions from std.py or
from the check's own models, and otherwise uninterpreted.
"""
import re
from .dom import *
from .syntax import Def, Module, World, walk, AnchorMissing

TRANSPARENT = {'Arc', 'Rc', 'Box', 'Cow', 'Pin', 'Lazy', 'LazyLock', 'Reverse', 'ManuallyDrop', 'Wrapping', 'Weak', 'MutexGuard', 'NonNull'}
STRLIKE = {'String', 'str', 'OsString', 'OsStr', 'Arc<str>', 'BStr', 'BString', 'CompactString'}
VECLIKE = {'Vec', 'VecDeque', 'Box<[T]>', 'SmallVec', 'LinkedList', 'BinaryHeap', 'slice', 'array', 'IntoIter'}
SETLIKE = {'HashSet', 'BTreeSet', 'IndexSet'}
MAPLIKE = {'HashMap', 'BTreeMap', 'IndexMap', 'FxHashMap', 'LinkedHashMap'}


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    def __init__(self, label, v):
        self.label = label
        self.v = v


class ContinueEx(Exception):
    def __init__(self, label):
        self.label = label


class Frame:
    __slots__ = ('module', 'selfty', 'ret', 'tparams', 'name', 'impl')

    def __init__(self, module, selfty=None, ret=None, tparams=None, name='', impl=None):
        self.module = module
        self.selfty = selfty
        self.ret = ret
        self.tparams = tparams or {}
        self.name = name
        self.impl = impl


class Env:
    __slots__ = ('vars', 'parent', 'frame')

    def __init__(self, parent=None, frame=None):
        self.vars = {}
        self.parent = parent
        self.frame = frame or (parent.frame if parent else None)

    def find(self, name):
        e = self
        while e is not None:
            c = e.vars.get(name)
            if c is not None:
                return c
            e = e.parent
        return None


def temp(v):
    box = [v]
    if isinstance(v, Ref):
        return v

    def s(x):
        box[0] = x
    return Ref(lambda: box[0], s)


def inner(ref):
    """Innermost mutable place of a chain of references."""
    while True:
        v = ref.get()
        if isinstance(v, Ref):
            ref = v
        else:
            return ref


TIME_MAX = 2 ** 62 * 10 ** 9      # no point in time is further away than that


def keep_time(v, l, r, op):
    """Type of sums and differences of times."""
    if isinstance(v, Term) and isinstance(l, Term) and l.ty is not None and l.ty[0] in ('Instant', 'SystemTime'):
        rt = getattr(r, 'ty', None)
        return Term(v.op, v.args, Ty('Duration') if rt is not None and rt[0] == l.ty[0] else l.ty)
    return v


class Span(int):
    """A length of time known to be a Duration, which cannot be negative."""


class Interp:
    def __init__(self, world, ctx, models=None, mmodels=None, sigs=None, opaque=None):
        from . import std
        self.w = world
        self.ctx = ctx
        self.std = std
        self.models = models or {}
        self.mmodels = mmodels or {}
        self.sigs = sigs or {}
        self.opaque = opaque or {}
        self.depth = 0
        self.consts = {}
        self.fuel = 400000
        self.loop_limit = 4
        self.assign_hooks = {}
        self.drops = None

    # ------------------------------------------------------------------ types
    def ty(self, n, fr):
        """Type node -> Ty or None."""
        if n is None:
            return None
        k = n['k']
        if k == 'ref':
            return self.ty(n['t'], fr)
        if k == 'tuple':
            if not n['ts']:
                return Ty('unit')
            return Ty('tuple', *[self.ty(t, fr) for t in n['ts']])
        if k == 'slice' or k == 'array':
            t = self.ty(n['t'], fr)
            if t == Ty('u8'):
                return Ty('Bytes')
            return Ty('Vec', t)
        if k == 'never':
            return Ty('never')
        if k == 'dyn' or k == 'impl':
            if n['b']:
                b = n['b'][0]
                last = b['segs'][-1]
                nm = last[0]
                if nm in ('Future',):
                    for a in last[1]:
                        if a['k'] == 'assoc':
                            return self.ty(a['t'], fr)
                if nm in ('AsRef', 'Into', 'Borrow', 'Deref'):
                    if last[1]:
                        return self.ty(last[1][0], fr)
                if nm in ('Iterator', 'IntoIterator'):
                    for a in last[1]:
                        if a['k'] == 'assoc':
                            return Ty('Iter', self.ty(a['t'], fr))
                    return Ty('Iter', None)
                if nm in ('Fn', 'FnMut', 'FnOnce'):
                    return Ty('fn', nm)
                d = self.w.resolve(fr.module, [s[0] for s in b['segs']], 'type')
                if isinstance(d, Def):
                    return Ty('dyn:' + d.id)
                return Ty('dyn:' + nm)
            return None
        if k == 'path':
            return self.path_ty(n['p'], fr)
        return None

    def path_ty(self, p, fr):
        segs = [s[0] for s in p['segs']]
        last = p['segs'][-1]
        if p.get('qself'):
            q = self.ty(p['qself'], fr)
            return self.assoc_ty(q, segs[-1], fr)
        if segs[0] == 'Self':
            if len(segs) == 1:
                return fr.selfty
            if fr.impl is not None and segs[1] in fr.impl.types:
                return self.ty(fr.impl.types[segs[1]], fr)
            return self.assoc_ty(fr.selfty, segs[1], fr)
        if segs[0] in fr.tparams:
            if len(segs) == 1:
                return fr.tparams[segs[0]]
            return None
        d = self.w.resolve(fr.module, segs, 'type')
        if isinstance(d, Def):
            if d.kind == 'type':
                f2 = Frame(d.module)
                g = [x for x in d.node.get('generics', []) if x.get('param')]
                args = [self.ty(a, fr) for a in last[1] if a['k'] not in ('assoc', 'constarg')]
                for i, x in enumerate(g):
                    f2.tparams[x['n']] = args[i] if i < len(args) else self.ty(x['d'], f2) if x.get('d') else None
                return self.ty(d.node['ty'], f2)
            if d.kind in ('struct', 'enum'):
                args = [self.ty(a, fr) for a in last[1] if a['k'] not in ('assoc', 'constarg')]
                return Ty(d.id, *args)
            if d.kind == 'trait':
                return Ty('dyn:' + d.id)
            return None
        if isinstance(d, tuple) and d[0] == 'assoc':
            return None
        name = d[1][-1]
        args = [self.ty(a, fr) for a in last[1] if a['k'] not in ('assoc', 'constarg', 'fnargs')]
        if name in STRLIKE:
            return T_STR
        if name in TRANSPARENT and args:
            return args[0]
        if name in ('OnceCell', 'OnceLock', 'Mutex', 'RwLock', 'RefCell', 'Cell') and args:
            return Ty('cell', Ty('Option', args[0]) if name.startswith('Once') else args[0])
        if name in VECLIKE:
            if args and args[0] == Ty('u8'):
                return Ty('Bytes')
            return Ty('Vec', *args[:1])
        if name in SETLIKE:
            return Ty('Set', *args[:1])
        if name in MAPLIKE:
            return Ty('Map', *args[:2])
        if name in ('PathBuf', 'Path', 'TempPath'):
            return Ty('Path')
        if name == 'Result':
            if len(args) == 1:
                mod = d[1][0] if len(d[1]) > 1 else ''
                return Ty('Result', args[0], Ty({'anyhow': 'anyhow', 'io': 'io::Error'}.get(d[1][-2] if len(d[1]) > 1 else '', 'Error')))
            return Ty('Result', *args)
        if name == 'Error' and len(d[1]) > 1:
            return Ty('::'.join(d[1][-2:]))
        if name == 'NonZero' or name.startswith('NonZeroU'):
            return Ty('usize')
        if name == 'BoxFuture' or name == 'LocalBoxFuture':
            return args[0] if args else None
        return Ty(name, *args)

    def assoc_ty(self, q, name, fr):
        if q is None:
            return None
        for im in self.w.impls:
            if im.self_id == q[0] and name in im.types:
                return self.ty(im.types[name], Frame(im.module, q, impl=im))
        return None

    def typedef(self, ty):
        if ty is None:
            return None
        return self.w.typedefs.get(ty[0])

    def struct_frame(self, d, ty):
        fr = Frame(d.module, ty)
        g = [x for x in d.node.get('generics', []) if x.get('param')]
        for i, x in enumerate(g):
            fr.tparams[x['n']] = ty.arg(i) if ty is not None else None
        return fr

    def field_ty(self, ty, name):
        d = self.typedef(ty)
        if d is None:
            if ty is not None and ty[0] == 'tuple':
                return ty.arg(int(name)) if name.isdigit() else None
            return None
        if d.kind != 'struct':
            return None
        for f in d.node['fields']:
            if f['name'] == name:
                return self.ty(f['ty'], self.struct_frame(d, ty))
        return None

    def tyid(self, v):
        v = deref(v)
        if isinstance(v, (Struct, Enum)):
            return v.ty
        if isinstance(v, Term):
            return v.ty[0] if v.ty is not None else None
        if isinstance(v, Str):
            return 'str'
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, (int, Fraction)):
            return 'int'
        if isinstance(v, Vec):
            return {'Set': 'Set', 'Bytes': 'Bytes'}.get(v.kind, 'Vec')
        if isinstance(v, Map):
            return 'Map'
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, Chr):
            return 'char'
        if isinstance(v, (Closure, FnVal)):
            return 'fn'
        if isinstance(v, Iter):
            return 'Iter'
        if isinstance(v, Native):
            return v.kind
        if v is UNIT:
            return 'unit'
        if isinstance(v, Future):
            return 'Future'
        return None

    # ------------------------------------------------------------ term forcing
    def variants_of(self, ty):
        if ty is None:
            return None
        if ty[0] == 'Option':
            return ['Some', 'None']
        if ty[0] == 'Result':
            return ['Ok', 'Err']
        d = self.typedef(ty)
        if d is not None and d.kind == 'enum':
            return [v['name'] for v in d.node['variants']]
        return self.std.EXT_ENUMS.get(ty[0])

    def enum_payload(self, t, ty, variant):
        if ty[0] == 'Option':
            return [Term('some', (t,), ty.arg(0))] if variant == 'Some' else []
        if ty[0] == 'Result':
            if variant == 'Ok':
                if ty.arg(0) is not None and ty.arg(0)[0] == 'unit':
                    return [UNIT]
                return [self.lift(Term('ok', (t,), ty.arg(0)))]
            return [self.lift(Term('err', (t,), ty.arg(1)))]
        d = self.typedef(ty)
        if d is None:
            return []
        for v in d.node['variants']:
            if v['name'] == variant:
                fr = self.struct_frame(d, ty)
                if v['kind'] == 'named':
                    return {f['name']: Term('pay', (t, variant, f['name']), self.ty(f['ty'], fr)) for f in v['fields']}
                return [Term('pay', (t, variant, f['name']), self.ty(f['ty'], fr)) for f in v['fields']]
        return []

    def lift(self, t):
        if isinstance(t, Term) and t.ty is not None and t.ty[0] == 'unit':
            return UNIT
        return t

    def force(self, v, hint=None):
        """Gives a term of enum, tuple or collection type its structure (partitioning on it)."""
        v = deref(v)
        if not isinstance(v, Term):
            return v
        v0 = v
        v = self.ctx.norm(v)
        if not isinstance(v, Term):
            return v
        ty = v.ty or v0.ty or hint
        if ty is None:
            return v
        if ty[0] in ('Option', 'Result') or self.variants_of(ty):
            vs = self.variants_of(ty)
            key = ('variant', v)
            got = self.ctx.choose(key, vs, v)
            return Enum(ty[0], got, self.enum_payload(v, ty, got))
        if ty[0] == 'Vec' or ty[0] == 'Set':
            return self.force_seq(v, ty)
        if ty[0] == 'tuple':
            return Tup([Term('field', (v, str(i)), t) for i, t in enumerate(ty.args)])
        if ty[0] == 'unit':
            return UNIT
        if ty[0] == 'cell':
            return self.force(Term(v.op, v.args, ty.arg(0)))
        return v

    def force_seq(self, v, ty):
        n = self.ctx.choose(('count', v), list(range(self.ctx.k + 1)), Term('count', (v,)))
        el = ty.arg(0)
        return Vec([self.lift(Term('elem', (v, i), el)) for i in range(n)], 'Set' if ty[0] == 'Set' else 'Vec')

    def freeze(self, v):
        v = deref(v)
        if isinstance(v, (Term, Str, int, bool, Chr, Fraction, Closure, FnVal, str)) or v is UNIT or v is None:
            if isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], Term):
                return v.parts[0]
            return v
        if isinstance(v, Vec):
            return Term('vec', tuple(self.freeze(x) for x in v.items))
        if isinstance(v, Tup):
            return Term('tuple', tuple(self.freeze(x) for x in v.items))
        if isinstance(v, Map):
            return Term('map', (tuple((self.freeze(a), self.freeze(b)) for a, b in v.items), self.freeze(v.base)))
        if isinstance(v, Enum):
            if v.ty in ('Option', 'Result'):
                n = v.variant
            else:
                n = v.ty.split('::')[-1] + '::' + v.variant
            fs = v.fields
            if isinstance(fs, dict):
                return Term(n, tuple((k, self.freeze(x)) for k, x in fs.items()), Ty(v.ty))
            return Term(n, tuple(self.freeze(x) for x in fs), Ty(v.ty))
        if isinstance(v, Struct):
            e = self.eta(v)
            if e is not None:
                return e
            return Term(v.ty.split('::')[-1], tuple((k, self.freeze(x)) for k, x in v.fields.items()), Ty(v.ty, *v.tyargs))
        if isinstance(v, Iter):
            return Term('vec', tuple(self.freeze(x) for x in v.materialize()))
        if isinstance(v, Native):
            if hasattr(v, 'term'):
                return v.term
            if not hasattr(v, '_id'):
                v._id = self.ctx.counter.get('native', 0)
                self.ctx.counter['native'] = v._id + 1
            return Term(v.kind, (f'#{v._id}',))
        if isinstance(v, Future):
            return Term('future', (v.name,))
        return Term('opaque', (repr(v),))

    def eta(self, s):
        """Struct whose fields are all the fields of one term: that term."""
        base = None
        for k, x in s.fields.items():
            x = deref(x)
            if isinstance(x, Str) and len(x.parts) == 1:
                x = x.parts[0]
            if not (isinstance(x, Term) and x.op == 'field' and x.args[1] == k):
                return None
            if base is None:
                base = x.args[0]
            elif base != x.args[0]:
                return None
        return base

    # ----------------------------------------------------------------- copying
    def clone(self, v):
        v = deref(v)
        if isinstance(v, Struct):
            return Struct(v.ty, {k: self.clone(x) for k, x in v.fields.items()}, v.tyargs)
        if isinstance(v, Enum):
            if isinstance(v.fields, dict):
                return Enum(v.ty, v.variant, {k: self.clone(x) for k, x in v.fields.items()})
            return Enum(v.ty, v.variant, [self.clone(x) for x in v.fields])
        if isinstance(v, Vec):
            return Vec([self.clone(x) for x in v.items], v.kind)
        if isinstance(v, Tup):
            return Tup([self.clone(x) for x in v.items])
        if isinstance(v, Map):
            return Map([[self.clone(a), self.clone(b)] for a, b in v.items], v.base, v.vty)
        if isinstance(v, Iter):
            l = v.materialize()
            return Iter(list(l))
        return v

    # ---------------------------------------------------------------- equality
    def eq(self, a, b):
        a, b = deref(a), deref(b)
        if a is b:
            return True
        if isinstance(a, Term) and isinstance(b, Term):
            na, nb = self.ctx.norm(a), self.ctx.norm(b)
            if na == nb:
                return True
            a, b = na, nb
        if isinstance(a, Future) or isinstance(b, Future):
            a, b = (a.force() if isinstance(a, Future) else a), (b.force() if isinstance(b, Future) else b)
        # strings
        if isinstance(a, Str) or isinstance(b, Str):
            if isinstance(a, (Str, Term, Chr)) and isinstance(b, (Str, Term, Chr)):
                return self.ctx.str_eq(self.ctx.sstr(a), self.ctx.sstr(b))
            if isinstance(a, Vec) or isinstance(b, Vec):
                return self.bytes_eq(a, b)
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            return self.ctx.truth(a) == self.ctx.truth(b)
        if isinstance(a, Chr) and type(b) is int:
            a = ord(a.c)
        if isinstance(b, Chr) and type(a) is int:
            b = ord(b.c)
        if isinstance(a, (int, Fraction)) or isinstance(b, (int, Fraction)):
            if isinstance(a, (int, Fraction, Term)) and isinstance(b, (int, Fraction, Term)):
                return self.ctx.int_eq(a, b)
            return False
        if isinstance(a, Chr) and isinstance(b, Chr):
            return a.c == b.c
        if isinstance(a, Chr) or isinstance(b, Chr):
            if isinstance(a, Term) or isinstance(b, Term):
                return self.ctx.choose(('eq',) + tuple(sorted((a, b), key=repr)), [True, False])
            return False
        if isinstance(a, Term) and isinstance(b, Term):
            ty = a.ty or b.ty
            if is_int_ty(ty) or a.op == 'lin' or b.op == 'lin':
                return self.ctx.int_eq(a, b)
            if ty is not None:
                if ty[0] == 'str':
                    return self.ctx.str_eq(self.ctx.sstr(a), self.ctx.sstr(b))
                if ty[0] == 'bool':
                    return self.ctx.truth(a) == self.ctx.truth(b)
                d = self.typedef(ty)
                if ty[0] == 'Option' or (d is not None and d.kind == 'enum' and len(d.node['variants']) <= 24):
                    fa, fb = self.force(a, ty), self.force(b, ty)
                    return self.eq(fa, fb)
                im = self.find_method_impl(ty[0], 'eq')
                if im is not None and d is not None:
                    return self.ctx.truth(self.call_def(im, [a, b]))
                if d is not None and d.kind == 'struct' and self.derives(d, 'PartialEq') and False:
                    pass
            x, y = sorted((a, b), key=repr)
            return self.ctx.choose(('eq', x, y), [True, False])
        if isinstance(a, Term) and not isinstance(b, Term):
            a, b = b, a
        if isinstance(b, Term):
            # a is structured
            if isinstance(a, Enum):
                fb = self.force(b, Ty(a.ty) if a.ty not in ('Option', 'Result') else Ty(a.ty, None, None))
                if isinstance(fb, Enum):
                    return self.eq(a, fb)
            if isinstance(a, Struct):
                e = self.eta(a)
                if e is not None and self.ctx.norm(e) == self.ctx.norm(b):
                    return True
                d = self.w.typedefs.get(a.ty)
                if d is not None:
                    for k, x in a.fields.items():
                        if not self.eq(x, Term('field', (b, k), self.field_ty(b.ty or Ty(a.ty), k))):
                            return False
                    return True
            if isinstance(a, (Vec, Tup)):
                if isinstance(a, Vec) and b.ty is not None and b.ty[0] == 'Bytes':
                    return self.bytes_eq(a, b)
                fb = self.force(b, Ty('Vec', None) if isinstance(a, Vec) else Ty('tuple', *[None] * len(a.items)))
                if not isinstance(fb, Term):
                    return self.eq(a, fb)
            fa = self.freeze(a)
            if fa == b:
                return True
            x, y = sorted((fa, b), key=repr)
            return self.ctx.choose(('eq', x, y), [True, False])
        if isinstance(a, Enum) and isinstance(b, Enum):
            if a.ty == b.ty and a.ty not in ('Option', 'Result'):
                im = self.find_method_impl(a.ty, 'eq')
                if im is not None:
                    return self.ctx.truth(self.call_def(im, [a, b]))
            if a.variant != b.variant:
                return False
            fa = list(a.fields.values()) if isinstance(a.fields, dict) else a.fields
            fb = [b.fields[k] for k in a.fields] if isinstance(a.fields, dict) else b.fields
            return all(self.eq(x, y) for x, y in zip(fa, fb))
        if isinstance(a, Struct) and isinstance(b, Struct):
            if a.ty != b.ty:
                return False
            im = self.find_method_impl(a.ty, 'eq')
            if im is not None:
                return self.ctx.truth(self.call_def(im, [a, b]))
            return all(self.eq(x, b.fields[k]) for k, x in a.fields.items())
        if isinstance(a, Vec) and isinstance(b, Vec):
            if len(a.items) != len(b.items):
                return False
            if a.kind == 'Set' and b.kind == 'Set':
                return all(any(self.same(x, y) for y in b.items) or any(self.eq(x, y) for y in b.items) for x in a.items)
            return all(self.eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Map) and isinstance(b, Map):
            if len(a.items) != len(b.items) or not self.same(a.base, b.base):
                return False
            for k, v in a.items:
                for k2, v2 in b.items:
                    if self.eq(k, k2):
                        if not self.eq(v, v2):
                            return False
                        break
                else:
                    return False
            return True
        if isinstance(a, Iter) and isinstance(b, (Iter, Vec)):
            return self.eq(Vec(a.materialize()), Vec(b.materialize()) if isinstance(b, Iter) else b)
        if a is UNIT and b is UNIT:
            return True
        if isinstance(a, (Closure, FnVal, Native)) or isinstance(b, (Closure, FnVal, Native)):
            return a == b
        return False

    def bytes_eq(self, a, b):
        fa, fb = self.freeze(a), self.freeze(b)
        if isinstance(a, Str) and a.lit() is not None and isinstance(b, Vec) and all(isinstance(x, int) for x in b.items):
            return [ord(c) for c in a.lit()] == b.items
        if isinstance(b, Str):
            return self.bytes_eq(b, a) if isinstance(a, Vec) else fa == fb
        if fa == fb:
            return True
        x, y = sorted((fa, fb), key=repr)
        return self.ctx.choose(('eq', x, y), [True, False])

    def same(self, a, b):
        """Equality that is decided already (no new partition)."""
        return self.ctx.norm(self.freeze(a)) == self.ctx.norm(self.freeze(b))

    def derives(self, d, name):
        for a in d.node.get('attrs', []):
            if a.startswith('derive') and re.search(r'\b' + name + r'\b', a):
                return True
        return False

    # ---------------------------------------------------------------- ordering
    def cmp(self, a, b):
        """-1/0/1"""
        a, b = deref(a), deref(b)
        if isinstance(a, Native) and hasattr(a, 'ordkey'):
            a = a.ordkey
        if isinstance(b, Native) and hasattr(b, 'ordkey'):
            b = b.ordkey
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return (a > b) - (a < b)
        ta = self.tyid(a)
        im = None
        if ta in self.w.typedefs:
            im = self.find_method_impl(ta, 'cmp') or self.find_method_impl(ta, 'partial_cmp')
        if im is not None:
            r = self.call_def(im, [a, b])
            r = self.force(r)
            if isinstance(r, Enum) and r.ty == 'Option':
                r = r.fields[0] if r.fields else Enum('Ordering', 'Less')
            return {'Less': -1, 'Equal': 0, 'Greater': 1}[self.force(r).variant]
        if isinstance(a, Term) and isinstance(b, Term) and self.ctx.norm(a) == self.ctx.norm(b):
            return 0
        if is_int_ty(getattr(a, 'ty', None)) or is_int_ty(getattr(b, 'ty', None)) or isinstance(a, int) or isinstance(b, int):
            try:
                if self.ctx.lt(a, b):
                    return -1
                return 0 if self.ctx.int_eq(a, b) else 1
            except Unsupported:
                pass
        fa, fb = self.force(a), self.force(b)
        if isinstance(fa, Enum) and isinstance(fb, Enum):
            vs = self.variants_of(Ty(fa.ty)) or [fa.variant]
            if fa.ty == 'Option':
                vs = ['None', 'Some']
            i, j = vs.index(fa.variant), vs.index(fb.variant)
            if i != j:
                return (i > j) - (i < j)
            for x, y in zip(fa.fields if isinstance(fa.fields, list) else fa.fields.values(), fb.fields if isinstance(fb.fields, list) else fb.fields.values()):
                c = self.cmp(x, y)
                if c:
                    return c
            return 0
        if isinstance(fa, bool) or isinstance(fb, bool):
            x, y = self.ctx.truth(fa), self.ctx.truth(fb)
            return (x > y) - (x < y)
        if isinstance(fa, (Tup, Vec)) and isinstance(fb, (Tup, Vec)):
            for x, y in zip(fa.items, fb.items):
                c = self.cmp(x, y)
                if c:
                    return c
            return (len(fa.items) > len(fb.items)) - (len(fa.items) < len(fb.items))
        if isinstance(fa, Struct) and isinstance(fb, Struct) and fa.ty == fb.ty:
            for k in fa.fields:
                c = self.cmp(fa.fields[k], fb.fields[k])
                if c:
                    return c
            return 0
        if isinstance(fa, Chr) and isinstance(fb, Chr):
            return (fa.c > fb.c) - (fa.c < fb.c)
        if isinstance(fa, Str) and isinstance(fb, Str) and fa.lit() is not None and fb.lit() is not None:
            return (fa.lit() > fb.lit()) - (fa.lit() < fb.lit())
        x, y = self.freeze(fa), self.freeze(fb)
        if x == y:
            return 0
        flip = repr(x) > repr(y)
        r = self.ctx.choose(('cmp', y, x) if flip else ('cmp', x, y), [-1, 0, 1])
        return -r if flip else r

    # ------------------------------------------------------------------- calls
    def find_method_impl(self, tid, name):
        c = self.w.methods.get((tid, name))
        if not c:
            return None
        for im, d in c:
            if im.trait is None:
                return d
        return c[0][1]

    def impl_frame(self, d, selfty=None, ret=True):
        fr = Frame(d.module, selfty, name=d.id, impl=d.impl)
        if d.impl is not None:
            if selfty is None:
                fr.selfty = self.ty(d.impl.selfty, Frame(d.module))
            # unify impl type parameters with the concrete self type
            if selfty is not None and d.impl.tparams and d.impl.selfty['k'] == 'path':
                args = [a for a in d.impl.selfty['p']['segs'][-1][1] if a['k'] == 'path']
                for i, a in enumerate(args):
                    n = a['p']['segs'][0][0]
                    if n in d.impl.tparams:
                        fr.tparams[n] = selfty.arg(i)
        return fr

    def call_def(self, d, args, selfty=None, targs=(), expect=None):
        """Calls a function of the workspace."""
        node = d.node
        nm = d.name
        key = d.id
        ov = self.opaque.get(nm) or self.opaque.get(key)
        if ov is not None:
            r = ov(self, args)
            if r is not NotImplemented:
                return r
        if node.get('body') is None:
            raise Unsupported(f'{d.id} has no body')
        self.ctx.fns.add(key)
        if self.depth > 60:
            raise Unsupported(f'recursion through {d.id}')
        if selfty is None and node['self'] and args:
            a0 = deref(args[0])
            if isinstance(a0, Struct):
                selfty = Ty(a0.ty, *a0.tyargs)
            elif isinstance(a0, Enum):
                selfty = Ty(a0.ty)
            elif isinstance(a0, Term) and a0.ty is not None:
                selfty = a0.ty
        fr = self.impl_frame(d, selfty)
        tp = [g for g in node.get('generics', []) if g.get('param')]
        for i, g in enumerate(tp):
            fr.tparams[g['n']] = targs[i] if i < len(targs) else None
            if i >= len(targs):
                # `impl Trait`-like generics bound by AsRef/Into
                for b in g['b']:
                    if b['segs'][-1][0] in ('AsRef', 'Into') and b['segs'][-1][1]:
                        fr.tparams[g['n']] = self.ty(b['segs'][-1][1][0], fr)
        fr.ret = self.ty(node['ret'], fr) if node['ret'] else Ty('unit')
        if fr.ret is None and expect is not None:
            fr.ret = expect
        env = Env(frame=fr)
        args = list(args)
        if node['self']:
            if not args:
                raise Unsupported(f'{d.id} called without receiver')
            a = args.pop(0)
            if node['self'] == '&mut self':
                a = inner(a) if isinstance(a, Ref) else a
            else:
                a = deref(a)
                if node['self'] == 'mut self' and isinstance(a, Struct):
                    a = self.clone(a) if self.is_copy(a) else a
            env.vars['self'] = Cell(a)
        if len(args) != len(node['params']):
            raise Unsupported(f'{d.id}: {len(args)} arguments for {len(node["params"])} parameters')
        for p, a in zip(node['params'], args):
            pt = self.ty(p['ty'], fr)
            if p['ty']['k'] != 'ref' or not p['ty'].get('mut'):
                pass
            a = self.retype(a, pt)
            if not self.bind(p['pat'], a, env):
                raise Unsupported('refutable parameter')
            if self.drops is not None:
                self.drops.own(a, env)
        is_unit = fr.ret is not None and fr.ret[0] == 'unit'

        def run():
            self.depth += 1
            v = None
            try:
                v = self.block(node['body'], env, fr.ret)
                return self.retype(v, fr.ret)
            except ReturnEx as r:
                v = r.v
                return self.retype(r.v, fr.ret)
            finally:
                self.depth -= 1
                if self.drops is not None:
                    self.drops.end(env, v)
        if node['async']:
            return Future(run, d.id)
        return run()

    def retype(self, v, ty):
        """Adds a type to an untyped term."""
        if ty is None:
            return v
        if isinstance(v, Term) and (v.ty is None or (len(v.ty) < len(ty) and v.ty[0] == ty[0]) or (v.ty[0].startswith('dyn:') is False and v.ty[0] in ('Option', 'Result', 'Vec') and None in v.ty[1:] and ty[0] == v.ty[0])):
            if v.op == 'lin':
                return v
            return Term(v.op, v.args, ty)
        if isinstance(v, Enum) and v.ty == ty[0] and v.ty in ('Option', 'Result') and v.fields:
            i = 1 if v.variant == 'Err' else 0
            f = v.fields[0]
            if isinstance(f, Term) and f.ty is None and ty.arg(i) is not None:
                v.fields[0] = Term(f.op, f.args, ty.arg(i))
        return v

    def is_copy(self, v):
        d = self.w.typedefs.get(v.ty)
        return d is not None and self.derives(d, 'Copy')

    def call_value(self, f, args, expect=None):
        f = deref(f)
        if isinstance(f, Closure):
            return self.call_closure(f, args, expect)
        if isinstance(f, FnVal):
            return f.call(list(args))
        if isinstance(f, Native) and hasattr(f, 'call'):
            return f.call(list(args))
        if isinstance(f, Term):
            m = self.models.get('call:' + f.op)
            if m:
                return m(self, [f] + list(args))
            return Term('call', (f,) + tuple(self.freeze(a) for a in args), None)
        if isinstance(f, Struct):
            raise Unsupported(f'cannot call {show(f)}')
        if isinstance(f, Enum) and f.fields == [] and f.ty in self.std.EXT_ENUMS:
            return Enum(f.ty, f.variant, list(args))
        raise Unsupported(f'cannot call {show(f)}')

    def call_closure(self, c, args, expect=None):
        env = Env(c.env)
        node = c.node
        fr0 = c.env.frame
        fr = Frame(fr0.module, fr0.selfty, None, fr0.tparams, fr0.name, fr0.impl)
        fr.ret = self.ty(node.get('ret'), fr0) or expect
        env.frame = fr
        ps = node['params']
        if len(ps) != len(args):
            if len(ps) == 1 and len(args) > 1:
                args = [Tup(args)]
            else:
                raise Unsupported(f'closure at line {node.get("line")}: {len(args)} arguments for {len(ps)} parameters')
        for p, a in zip(ps, args):
            if p['ty'] is not None:
                a = self.retype(a, self.ty(p['ty'], fr))
            if not self.bind(p['pat'], a, env):
                raise Unsupported('refutable closure parameter')

        def run():
            try:
                return self.ev(node['body'], env, fr.ret)
            except ReturnEx as r:
                return r.v
        if node.get('async'):
            return Future(run, 'closure')
        return run()

    # --------------------------------------------------------------- statements
    def block(self, stmts, env, expect=None, scope=True):
        if self.drops is None:
            return self.block_in(stmts, env, expect, scope)
        d = self.drops
        d.stack.append(object())
        r = None
        try:
            r = self.block_in(stmts, env, expect, scope)
            return r
        except ReturnEx as x:
            r = x.v
            raise
        except BreakEx as x:
            r = x.v
            raise
        finally:
            d.end(d.stack.pop(), r)

    def block_in(self, stmts, env, expect=None, scope=True):
        if scope:
            env = Env(env)
        # items of the block form their own name scope
        items = [s['item'] for s in stmts if s['k'] == 'item']
        if items:
            fr = env.frame
            m = self.block_module(fr.module, stmts, items)
            f2 = Frame(m, fr.selfty, fr.ret, fr.tparams, fr.name, fr.impl)
            env.frame = f2
        last = UNIT
        n = len(stmts)
        for i, s in enumerate(stmts):
            k = s['k']
            if k == 'expr':
                if i == n - 1 and not s['semi']:
                    return self.ev(s['e'], env, expect)
                v = self.ev(s['e'], env)
                if self.drops is not None and s['semi'] and s['e']['k'] in ('call', 'mcall', 'await', 'path'):
                    self.drops.drop(v)
                if not s['semi'] and i == n - 1:
                    last = v
                else:
                    last = UNIT
            elif k == 'let':
                last = UNIT
                t = self.ty(s['ty'], env.frame) if s['ty'] else None
                if s['init'] is None:
                    self.declare(s['pat'], env, t)
                    continue
                if s['else'] is not None:
                    v = self.ev(s['init'], env, t)
                    sub = Env(env)
                    if self.bind(s['pat'], self.retype(v, t), sub):
                        env.vars.update(sub.vars)
                    else:
                        self.ev(s['else'], env)
                        raise Unsupported('let-else falls through')
                    continue
                v = self.ev(s['init'], env, t)
                v = self.retype(v, t)
                sub = Env(env)
                if not self.bind(s['pat'], v, sub):
                    raise Unsupported(f'refutable let at line {s.get("line")}')
                if self.drops is not None:
                    if s['pat']['k'] == 'wild':
                        if s['init']['k'] != 'path':
                            self.drops.drop(v)
                    else:
                        for x in sub.vars.values():
                            self.drops.own(x.v, self.drops.stack[-1])
                # shadowing: closures that captured the old cell keep it
                if any(nm in env.vars for nm in sub.vars):
                    nenv = Env(env)
                    nenv.frame = env.frame
                    env = nenv
                env.vars.update(sub.vars)
        return last

    def block_module(self, parent, stmts, items):
        key = id(stmts)
        cache = self.w.__dict__.setdefault('_blockmods', {})
        if key in cache:
            return cache[key][0]
        m = Module(parent.crate, parent.path + ('{block}',), parent, block=True)
        parent.crate.load(m, items)
        self.w.flush_impls()
        cache[key] = (m, stmts)
        return m

    def declare(self, pat, env, t):
        if pat['k'] == 'ident':
            env.vars[pat['name']] = Cell(None, t)
        elif pat['k'] == 'tuple':
            for p in pat['es']:
                self.declare(p, env, None)

    # ---------------------------------------------------------------- patterns
    def const_pat(self, p, env):
        """Resolves a path pattern: ('variant', enumdef, name) | ('const', value) | None (a binding)"""
        segs = [s[0] for s in p['segs']]
        fr = env.frame
        if segs[0] == 'Self' and len(segs) > 1 and fr.selfty is not None:
            d = self.typedef(fr.selfty)
            if d is not None and d.kind == 'enum':
                for v in d.node['variants']:
                    if v['name'] == segs[1]:
                        return ('variant', d.id, segs[1])
            return ('const', self.path_value(p, env))
        if segs[0] == 'Self':
            return ('struct', fr.selfty[0], None)
        d = self.w.resolve(fr.module, segs, 'value')
        if isinstance(d, Def):
            if d.kind == 'variant':
                return ('variant', d.extra.id, d.name)
            if d.kind in ('const', 'static'):
                return ('const', self.const_value(d))
            if d.kind in ('ctor', 'struct'):
                return ('struct', d.id, None)
            return None
        if isinstance(d, tuple) and d[0] == 'assoc':
            return ('const', self.path_value(p, env))
        dt = self.w.resolve(fr.module, segs, 'type')
        if isinstance(dt, Def) and dt.kind == 'struct':
            return ('struct', dt.id, None)
        if isinstance(dt, Def) and dt.kind == 'type':
            t = self.path_ty(p, fr)
            if t is not None:
                return ('struct', t[0], None)
        name = d[1][-1]
        if name in ('Some', 'None'):
            return ('variant', 'Option', name)
        if name in ('Ok', 'Err'):
            return ('variant', 'Result', name)
        if len(d[1]) >= 2 and d[1][-2][:1].isupper():
            return ('variant', d[1][-2], name)
        if name[:1].isupper():
            return ('variant', None, name)
        return None

    def bind(self, pat, v, env, ref=None):
        """Matches v (a value or Ref) against a pattern, binding variables in env. Returns bool."""
        k = pat['k']
        if k == 'wild' or k == 'rest':
            return True
        if k == 'ident':
            name = pat['name']
            if pat.get('sub') is not None:
                if not self.bind(pat['sub'], v, env, ref):
                    return False
                env.vars[name] = Cell(v)
                return True
            if not pat['byref'] and not pat['mut'] and (name[:1].isupper()):
                c = self.const_pat({'segs': [[name, []]]}, env)
                if c is not None:
                    return self.match_const(c, v, [], env)
            if isinstance(v, Ref) and not pat.get('byref'):
                env.vars[name] = Cell(v)
            else:
                env.vars[name] = Cell(v)
            return True
        if k == 'lit':
            x = self.ev(pat['e'], env)
            dv = deref(v)
            return self.eq(dv, x)
        if k == 'path':
            c = self.const_pat(pat['p'], env)
            if c is None:
                raise Unsupported(f'unresolved pattern {pat["p"]["segs"]}')
            return self.match_const(c, v, [], env)
        if k == 'tstruct':
            x = deref(v)
            if isinstance(x, Struct) and x.ty == 'axum' and len(pat['es']) == 1:
                return self.bind(pat['es'][0], x.fields['0'], env)      # an extractor of a request handler
            c = self.const_pat(pat['p'], env)
            if c is None:
                raise Unsupported(f'unresolved pattern {pat["p"]["segs"]}')
            return self.match_const(c, v, pat['es'], env)
        if k == 'struct':
            c = self.const_pat(pat['p'], env)
            if c is None:
                raise Unsupported(f'unresolved pattern {pat["p"]["segs"]}')
            return self.match_struct(c, v, pat['fields'], env)
        if k == 'tuple':
            dv = self.force(v, Ty('tuple', *[None] * len(pat['es'])))
            if isinstance(dv, Term):
                dv = Tup([Term('field', (dv, str(i)), None) for i in range(len(pat['es']))])
            if not isinstance(dv, Tup):
                if dv is UNIT and not pat['es']:
                    return True
                raise Unsupported(f'tuple pattern against {show(dv)}')
            return self.match_seq(pat['es'], dv.items, v, env)
        if k == 'or':
            for p in pat['ps']:
                sub = Env(env)
                if self.bind(p, v, sub):
                    env.vars.update(sub.vars)
                    return True
            return False
        if k == 'ref':
            return self.bind(pat['pat'], deref(v), env)
        if k == 'slice':
            dv = self.force(v)
            if isinstance(dv, Str):
                return self.match_bytes(pat['es'], dv, env)
            if not isinstance(dv, (Vec,)):
                raise Unsupported(f'slice pattern against {show(dv)}')
            return self.match_seq(pat['es'], dv.items, v, env, slice_=True)
        if k == 'range':
            dv = deref(v)
            if isinstance(dv, Chr) or (isinstance(dv, Term) and dv.ty == T_CHAR):
                return self.std.char_in_range(self, dv, pat, env)
            if pat['lo'] is not None and not self.ctx.le(self.ev(pat['lo'], env), dv):
                return False
            if pat['hi'] is not None:
                hi = self.ev(pat['hi'], env)
                return self.ctx.le(dv, hi) if pat['incl'] else self.ctx.lt(dv, hi)
            return True
        if k == 'constblock':
            return self.eq(deref(v), self.ev(pat['e'], env))
        raise Unsupported(f'pattern {k}')

    def match_bytes(self, es, s, env):
        if all(p['k'] == 'lit' or p['k'] == 'rest' for p in es):
            pre, i = '', 0
            while i < len(es) and es[i]['k'] == 'lit':
                pre += chr(int(es[i]['e']['v']))
                i += 1
            if i == len(es):
                return self.ctx.str_eq(s, Str(pre))
            if i == len(es) - 1:
                return self.ctx.starts_with(s, pre) is not None
        raise Unsupported('byte slice pattern')

    def slot_ref(self, lst, i):
        def s(x):
            lst[i] = x
        return Ref(lambda: lst[i], s)

    def sub_value(self, v, container, i):
        """Element of a matched container: a place if the scrutinee is one, so that it can be mutated."""
        x = container[i]
        if isinstance(v, Ref) and not isinstance(deref(x), (Struct, Vec, Map, Native)) and not isinstance(x, Ref):
            return self.slot_ref(container, i)
        return x

    def match_seq(self, es, items, v, env, slice_=False):
        rest = [i for i, p in enumerate(es) if p['k'] == 'rest' or (p['k'] == 'ident' and p.get('sub') and p['sub']['k'] == 'rest')]
        if not rest:
            if len(es) != len(items):
                if slice_:
                    return False
                raise Unsupported('pattern arity')
            return all(self.bind(p, self.sub_value(v, items, i), env) for i, p in enumerate(es))
        r = rest[0]
        tail = len(es) - r - 1
        if len(items) < len(es) - 1:
            return False
        for i in range(r):
            if not self.bind(es[i], self.sub_value(v, items, i), env):
                return False
        for j in range(tail):
            i = len(items) - tail + j
            if not self.bind(es[r + 1 + j], self.sub_value(v, items, i), env):
                return False
        if es[r]['k'] == 'ident':
            env.vars[es[r]['name']] = Cell(Vec(items[r:len(items) - tail]))
        return True

    def as_enum(self, v, tid, variant, n=0):
        """The value as Enum, given the pattern's enum."""
        dv = deref(v)
        if isinstance(dv, Enum):
            return dv
        if isinstance(dv, Future):
            raise Unsupported('future matched without await')
        if isinstance(dv, Term):
            dv0 = dv
            dv = self.ctx.norm(dv)
            ty = dv.ty or dv0.ty
            if ty is None or (ty[0] != tid and tid is not None and self.variants_of(ty) is None):
                if tid == 'Option':
                    ty = Ty('Option', None)
                elif tid == 'Result':
                    ty = Ty('Result', None, None)
                elif tid in self.w.typedefs:
                    ty = Ty(tid)
                else:
                    return dv
            if self.variants_of(ty) is None:
                return dv
            e = self.force(dv, ty)
            if isinstance(v, Ref) and isinstance(e, Enum):
                # later matches see the same payload objects
                inner(v).set(e)
            return e
        return dv

    def match_const(self, c, v, es, env):
        if c[0] == 'const':
            return self.eq(deref(v), c[1])
        if c[0] == 'struct':
            dv = deref(v)
            if isinstance(dv, Struct):
                if not es:
                    return True
                keys = list(dv.fields)
                return self.match_seq_fields(es, dv.fields, keys, v, env)
            if isinstance(dv, Term):
                d = self.w.typedefs.get(c[1])
                fs = {f['name']: Term('field', (dv, f['name']), self.field_ty(dv.ty or Ty(c[1]), f['name'])) for f in d.node['fields']}
                return self.match_seq_fields(es, fs, list(fs), v, env)
            if isinstance(dv, Tup):
                return self.match_seq(es, dv.items, v, env)
            raise Unsupported(f'struct pattern against {show(dv)}')
        _, tid, variant = c
        if not es and f'{tid}::{variant}' in self.std.EXT_CONST:
            return self.eq(deref(v), self.std.EXT_CONST[f'{tid}::{variant}'])
        e = self.as_enum(v, tid, variant, len(es))
        if isinstance(e, Enum):
            if e.variant != variant:
                return False
            fs = e.fields
            if isinstance(fs, dict):
                return self.match_seq_fields(es, fs, list(fs), v, env)
            if not es:
                return True
            if not fs and es and all(p['k'] in ('wild', 'rest') for p in es):
                return True
            return self.match_seq(es, fs, v, env)
        if isinstance(e, Term):
            # enum of another crate
            t = self.ext_variant(e, tid, variant)
            if not t:
                return False
            pays = [Term('pay', (e, variant, str(i)), self.std.ext_payload_ty(tid, variant, i)) for i in range(len(es))]
            return self.match_seq(es, pays, v, env)
        if isinstance(e, (Vec, Str, Tup, Struct, int, Chr)):
            raise Unsupported(f'pattern {variant} against {show(e)}')
        return False

    def ext_variant(self, e, tid, variant):
        """Is the foreign enum value e of this variant? Decided one variant at a time, exclusively."""
        key = ('extvariant', e)
        known = self.ctx.known(key)
        if known is not None:
            return known == variant
        if self.ctx.known(('notvariant', e, variant)):
            return False
        r = self.ctx.choose(('isvariant', e, variant), [True, False], Term('is', (e, variant)))
        if r:
            self.ctx.assume(key, variant)
        else:
            self.ctx.assume(('notvariant', e, variant), True)
        return r

    def match_seq_fields(self, es, fs, keys, v, env):
        rest = [i for i, p in enumerate(es) if p['k'] == 'rest']
        idx = list(range(len(es)))
        if rest:
            r = rest[0]
            tail = len(es) - r - 1
            pairs = [(es[i], keys[i]) for i in range(r)] + [(es[r + 1 + j], keys[len(keys) - tail + j]) for j in range(tail)]
        else:
            pairs = list(zip(es, keys))
        return all(self.bind(p, self.sub_field(v, fs, key), env) for p, key in pairs)

    def sub_field(self, v, fs, key):
        x = fs[key]
        if isinstance(v, Ref) and not isinstance(deref(x), (Struct, Vec, Map, Native)) and not isinstance(x, Ref):
            def s(y):
                fs[key] = y
            return Ref(lambda: fs[key], s)
        return x

    def match_struct(self, c, v, fields, env):
        if c[0] == 'variant':
            e = self.as_enum(v, c[1], c[2])
            if isinstance(e, Enum):
                if e.variant != c[2]:
                    return False
                fs = e.fields
                for f in fields:
                    if isinstance(fs, dict):
                        if f['n'] not in fs:
                            raise Unsupported(f'no field {f["n"]} in {e.variant}')
                        x = self.sub_field(v, fs, f['n'])
                    else:
                        x = self.sub_value(v, fs, int(f['n']))
                    if not self.bind(f['pat'], x, env):
                        return False
                return True
            if isinstance(e, Term):
                if not self.ext_variant(e, c[1], c[2]):
                    return False
                for f in fields:
                    if not self.bind(f['pat'], Term('pay', (e, c[2], f['n']), None), env):
                        return False
                return True
            return False
        if c[0] == 'struct':
            dv = deref(v)
            if isinstance(dv, Term) and isinstance(v, Ref):
                dv2 = self.materialize(dv, Ty(c[1]))
                if dv2 is not None:
                    inner(v).set(dv2)
                    dv = dv2
            for f in fields:
                if isinstance(dv, Struct):
                    x = self.sub_field(v, dv.fields, f['n'])
                else:
                    x = self.field(dv, f['n'], Ty(c[1]))
                if not self.bind(f['pat'], x, env):
                    return False
            return True
        raise Unsupported('struct pattern')

    # ------------------------------------------------------------------ places
    def thaw(self, t):
        """The value a frozen term stands for."""
        t = deref(t)
        if not isinstance(t, Term):
            return t
        if t.op == 'vec':
            return Vec([self.thaw(x) for x in t.args])
        if t.op == 'tuple':
            return Tup([self.thaw(x) for x in t.args])
        if t.op in ('Some', 'Ok', 'Err') and len(t.args) == 1:
            return Enum('Option' if t.op == 'Some' else 'Result', t.op, [self.thaw(t.args[0])])
        if t.op == 'None' and not t.args:
            return Enum('Option', 'None', [])
        if t.ty is not None and t.args and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in t.args):
            d = self.typedef(t.ty)
            if d is not None and d.kind == 'struct':
                return Struct(d.id, {k: self.thaw(x) for k, x in t.args}, tuple(t.ty.args))
        if t.ty is not None and '::' in t.op:
            d = self.typedef(t.ty)
            if d is not None and d.kind == 'enum' and t.op.split('::')[-1] in [x['name'] for x in d.node['variants']]:
                n = t.op.split('::')[-1]
                if t.args and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in t.args):
                    return Enum(d.id, n, {k: self.thaw(x) for k, x in t.args})
                return Enum(d.id, n, [self.thaw(x) for x in t.args])
        return t

    def materialize(self, t, ty=None):
        """Struct value with all fields of a symbolic struct."""
        v = self.thaw(t)
        if isinstance(v, Struct):
            return v
        return self.materialize_term(t, ty)

    def materialize_term(self, t, ty=None):
        """Struct value with all fields of a symbolic struct."""
        ty = t.ty or ty
        d = self.typedef(ty)
        if d is None or d.kind != 'struct':
            return None
        return Struct(d.id, {f['name']: Term('field', (t, f['name']), self.field_ty(ty, f['name'])) for f in d.node['fields']}, tuple(ty.args))

    def field(self, v, name, hint=None):
        v = deref(v)
        if isinstance(v, Struct):
            if name in v.fields:
                return v.fields[name]
            # Deref to the wrapped value
            im = self.find_method_impl(v.ty, 'deref')
            if im is not None:
                return self.field(self.call_def(im, [v]), name)
            if 'value' in v.fields or len(v.fields) == 1:
                raise Unsupported(f'no field {name} in {v.ty}')
            raise Unsupported(f'no field {name} in {v.ty}')
        if isinstance(v, Tup):
            return v.items[int(name)]
        if isinstance(v, Native):
            if hasattr(v, name):
                return getattr(v, name)
            if hasattr(v, 'get_field'):
                return v.get_field(name)
            return Term('field', (self.freeze(v), name), None)
        if isinstance(v, Term):
            v0 = v
            v = self.ctx.norm(v)
            ty = v.ty or v0.ty or hint
            if ty is not None and ty[0] == 'cell':
                ty = ty.arg(0)
            d = self.typedef(ty)
            if d is not None and d.kind == 'struct' and not any(f['name'] == name for f in d.node['fields']):
                im = self.find_method_impl(ty[0], 'deref')
                if im is not None:
                    return self.field(self.call_def(im, [Term(v.op, v.args, ty)]), name)
                raise Unsupported(f'no field {name} in {ty}')
            if v.op == 'tuple' and name.isdigit():
                return v.args[int(name)]
            for pair in v.args:
                if isinstance(pair, tuple) and len(pair) == 2 and pair[0] == name and v.op[:1].isupper():
                    return pair[1]
            ft = self.field_ty(ty, name) or self.std.ext_field_ty(ty, name)
            if ft is not None and ft[0] == 'unit':
                return UNIT
            return Term('field', (v, name), ft)
        if isinstance(v, Enum) and len(v.fields) == 1 and name == '0':
            return v.get(0)
        raise Unsupported(f'field {name} of {show(v)}')

    def place(self, e, env):
        k = e['k']
        if k == 'path':
            p = e['p']
            if len(p['segs']) == 1 and not p.get('qself'):
                c = env.find(p['segs'][0][0])
                if c is not None:
                    def s(x, c=c):
                        c.v = x
                    return Ref(lambda c=c: c.v, s)
            return temp(self.ev(e, env))
        if k == 'field':
            base = self.place(e['e'], env)
            name = e['name']

            def g():
                return self.field(base, name)

            def s(x):
                b = inner(base)
                v = b.get()
                if isinstance(v, Term):
                    m = self.materialize(v)
                    if m is None:
                        ov = Native('struct', term=Term('upd', (v, name, self.freeze(x))), base=v)
                        raise Unsupported(f'assignment to field {name} of {show(v)}')
                    b.set(m)
                    v = m
                if isinstance(v, Struct):
                    if name not in v.fields:
                        im = self.find_method_impl(v.ty, 'deref_mut') or self.find_method_impl(v.ty, 'deref')
                        if im is not None:
                            t = deref(self.call_def(im, [v]))
                            if isinstance(t, Struct) and name in t.fields:
                                t.fields[name] = x
                                return
                    h = self.assign_hooks.get((v.ty.split('::')[-1], name))
                    if h:
                        h(self, v, x)
                    v.fields[name] = x
                elif isinstance(v, Tup):
                    v.items[int(name)] = x
                elif isinstance(v, Native):
                    setattr(v, name, x)
                else:
                    raise Unsupported(f'assignment to field {name} of {show(v)}')
            return Ref(g, s)
        if k == 'index':
            base = self.place(e['e'], env)
            idx = self.ev(e['i'], env)
            return self.std.index_place(self, base, idx, e)
        if k == 'unary' and e['op'] == '*':
            r = self.place(e['e'], env)
            v = r.get()
            if isinstance(v, Ref):
                return inner(v)
            return r
        if k in ('mcall', 'call', 'try', 'await', 'expanded', 'block', 'match', 'if'):
            v = self.ev(e, env)
            return v if isinstance(v, Ref) else temp(v)
        v = self.ev(e, env)
        return v if isinstance(v, Ref) else temp(v)

    # -------------------------------------------------------------- expressions
    def ev(self, e, env, expect=None):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported('analysis step limit')
        f = EV.get(e['k'])
        if f is None:
            raise Unsupported(f'expression {e["k"]} at line {e.get("line")}')
        try:
            return f(self, e, env, expect)
        except Unsupported as u:
            if not getattr(u, 'located', False):
                fr = env.frame
                u.located = True
                u.args = (f'{u.args[0] if u.args else ""} [in {fr.name}, line {e.get("line")}]',)
            raise

    def val(self, e, env, expect=None):
        return deref(self.ev(e, env, expect))

    def e_lit(self, e, env, expect):
        t = e['t']
        if t == 'str':
            return Str(e['v'])
        if t == 'int':
            return int(e['v'].replace('_', ''))
        if t == 'bool':
            return e['v']
        if t == 'char':
            return Chr(e['v'])
        if t == 'float':
            return Fraction(e['v'].replace('_', ''))
        if t == 'bytes':
            return Str(''.join(map(chr, e['v'])))
        raise Unsupported(f'literal {e}')

    def e_path(self, e, env, expect):
        return self.path_value(e['p'], env, expect)

    def path_value(self, p, env, expect=None):
        segs = [s[0] for s in p['segs']]
        fr = env.frame
        if len(segs) == 1 and not p.get('qself'):
            c = env.find(segs[0])
            if c is not None:
                if c.v is None:
                    raise Unsupported(f'{segs[0]} used before assignment')
                return c.v
        return self.item_value(p, env, expect)

    def last_targs(self, p, fr):
        return [self.ty(a, fr) for a in p['segs'][-1][1] if a['k'] not in ('assoc', 'constarg')]

    def item_value(self, p, env, expect=None):
        fr = env.frame
        segs = [s[0] for s in p['segs']]
        if p.get('qself'):
            q = self.ty(p['qself'], fr)
            trait = segs[:-1]
            return self.assoc_value(q, segs[-1], p, fr, expect, trait=trait[-1] if trait else None)
        if segs[0] == 'Self':
            if len(segs) == 1:
                return self.ctor(fr.selfty)
            if len(segs) == 3:
                t = self.ty(fr.impl.types[segs[1]], fr) if fr.impl is not None and segs[1] in fr.impl.types else self.assoc_ty(fr.selfty, segs[1], fr)
                if t is not None:
                    return self.assoc_value(t, segs[2], p, fr, expect)
            return self.assoc_value(fr.selfty, segs[1], p, fr, expect)
        if segs[0] in fr.tparams and len(segs) == 2:
            t = fr.tparams[segs[0]]
            if t is not None:
                return self.assoc_value(t, segs[1], p, fr, expect)
            return self.ext_value(tuple(segs), p, fr, expect)
        d = self.w.resolve(fr.module, segs, 'value')
        if isinstance(d, Def):
            if d.kind == 'fn':
                ta = self.last_targs(p, fr)
                return FnVal(d.id, lambda args, d=d, ta=ta: self.call_def(d, args, targs=ta, expect=expect), d)
            if d.kind == 'const':
                return self.const_value(d)
            if d.kind == 'variant':
                return self.variant_value(d.extra, d.name)
            if d.kind == 'ctor':
                return self.ctor(Ty(d.id))
            raise Unsupported(f'{d.kind} {d.id} as value')
        if d[0] == 'assoc':
            _, td, rest = d
            if td.kind == 'trait':
                return self.trait_fn(td, rest[0], p, fr, expect)
            ty = self.path_ty({'segs': p['segs'][:-1], 'qself': None}, fr) if len(segs) > 1 else None
            if ty is None:
                ty = Ty(td.id)
            return self.assoc_value(ty, rest[0], p, fr, expect)
        # maybe Type::assoc of an external or builtin type
        return self.ext_value(d[1], p, fr, expect)

    def trait_fn(self, td, name, p, fr, expect):
        def call(args):
            if not args:
                if expect is not None:
                    return self.assoc_call(expect, name, args, expect)
                raise Unsupported(f'{td.id}::{name} without receiver')
            return self.method(args[0] if isinstance(args[0], Ref) else temp(args[0]), name, args[1:], (), expect)
        return FnVal(td.id + '::' + name, call)

    def ctor(self, ty):
        d = self.typedef(ty)
        if d is None or d.kind != 'struct':
            raise Unsupported(f'constructor {ty}')
        names = [f['name'] for f in d.node['fields']]
        if not names:
            return Struct(d.id, {})
        fr = self.struct_frame(d, ty)

        def call(args):
            return Struct(d.id, {n: self.retype(a, self.ty(f['ty'], fr)) for n, a, f in zip(names, args, d.node['fields'])}, tuple(ty.args))
        return FnVal(d.id, call)

    def variant_value(self, ed, name):
        for v in ed.node['variants']:
            if v['name'] == name:
                if v['kind'] == 'unit':
                    return Enum(ed.id, name, [])
                return FnVal(ed.id + '::' + name, lambda args: Enum(ed.id, name, args))
        raise Unsupported(f'variant {name}')

    def const_value(self, d):
        key = d.id + ('' if d.impl is None else str(id(d.impl)))
        if key not in self.consts:
            ov = self.opaque.get('const:' + d.name)
            if ov is not None:
                self.consts[key] = ov(self, [])
                return self.consts[key]
            fr = self.impl_frame(d)
            t = self.ty(d.node['ty'], fr)
            v = self.ev(d.node['e'], Env(frame=fr), t)
            self.consts[key] = deref(v)
            self.ctx.fns.add(d.id)
        v = self.consts[key]
        return v

    def assoc_value(self, ty, name, p, fr, expect, trait=None):
        """Type::name"""
        if ty is None:
            return self.ext_value(('?', name), p, fr, expect)
        d = self.typedef(ty)
        if d is not None and d.kind == 'enum':
            for v in d.node['variants']:
                if v['name'] == name:
                    return self.variant_value(d, name)
        # associated constants
        for im in self.w.impls:
            if im.self_id == ty[0] and name in im.consts:
                return self.const_value(im.consts[name])
        if d is not None or self.w.methods.get((ty[0], name)):
            ta = self.last_targs(p, fr)
            return FnVal(ty[0] + '::' + name, lambda args: self.assoc_call(ty, name, args, expect, ta, trait))
        return self.ext_value((ty[0], name), p, fr, expect, ty)

    def assoc_call(self, ty, name, args, expect=None, targs=(), trait=None):
        c = [x for x in self.w.methods.get((ty[0], name), []) if trait is None or (x[0].trait or '').split('::')[-1] == trait]
        if c:
            if len(c) > 1:
                c = self.pick_impl(c, args, expect)
            return self.call_def(c[0][1], args, selfty=ty, targs=targs, expect=expect)
        d = self.typedef(ty)
        # trait default methods
        for im in self.w.impls:
            if im.self_id == ty[0] and im.trait_def is not None and im.trait_def.extra and name in im.trait_def.extra:
                td = im.trait_def.extra[name]
                if td.node.get('body') is not None:
                    return self.call_def(td, args, selfty=ty, targs=targs, expect=expect)
        if name == 'default' and not args:
            return self.std.default_of(self, ty)
        if name == 'from' and len(args) == 1:
            return self.std.convert(self, args[0], ty)
        if name in ('try_from',) and len(args) == 1:
            return Term('try_from', (self.freeze(args[0]), ty), Ty('Result', ty, None))
        if name == 'from_str' and len(args) == 1:
            return self.std.parse(self, args[0], ty)
        if args and d is not None:
            return self.method(args[0] if isinstance(args[0], Ref) else temp(args[0]), name, args[1:], targs, expect)
        return self.ext_call((ty[0], name), args, targs, expect, ty)

    def pick_impl(self, c, args, expect=None):
        """Chooses among several trait impls by the type of the last argument."""
        out = []
        for im, d in c:
            if im.trait is None:
                return [(im, d)]
            if len(d.node['params']) + (1 if d.node['self'] else 0) != len(args):
                continue
            out.append((im, d))
        if len(out) > 1 and args:
            a = deref(args[-1])
            tid = self.tyid(a)
            best = []
            for im, d in out:
                if not d.node['params']:
                    best.append((im, d))
                    continue
                pt = self.ty(d.node['params'][-1]['ty'], self.impl_frame(d))
                if pt is None:
                    continue
                if pt[0] == tid or (tid == 'int' and is_int_ty(pt)):
                    best.append((im, d))
            if best:
                out = best
            elif tid is None:
                raise Unsupported(f'ambiguous impl of {c[0][1].name} for {show(a)}')
        if not out:
            raise Unsupported(f'no impl of {c[0][1].name} fits')
        return out

    def ext_value(self, segs, p, fr, expect, ty=None):
        name = '::'.join(segs)
        last = segs[-1]
        c = self.std.ext_const(self, segs, ty)
        if c is not None:
            return c
        ta = self.last_targs(p, fr)
        ta0 = [self.ty(a, fr) for a in p['segs'][-2][1] if a['k'] not in ('assoc', 'constarg')] if len(p['segs']) > 1 else []
        return FnVal(name, lambda args: self.ext_call(segs, args, ta or ta0, expect, ty))

    def ext_call(self, segs, args, targs=(), expect=None, ty=None):
        segs = tuple(s.split('::')[-1] if i == 0 and '::' in s else s for i, s in enumerate(segs))
        return self.std.ext_call(self, segs, args, targs, expect, ty)

    def e_call(self, e, env, expect):
        f = e['f']
        if f['k'] == 'path':
            p = f['p']
            segs = [s[0] for s in p['segs']]
            if len(segs) == 1 and env.find(segs[0]) is None and segs[0] in ('Some', 'Ok', 'Err'):
                d = self.w.resolve(env.frame.module, segs, 'value')
                if not isinstance(d, Def):
                    i = {'Some': 0, 'Ok': 0, 'Err': 1}[segs[0]]
                    et = expect.arg(i) if expect is not None and expect[0] in ('Option', 'Result') else None
                    v = self.ev(e['args'][0], env, et)
                    v = self.retype(v, et)
                    return Enum('Option' if segs[0] == 'Some' else 'Result', segs[0], [v])
        fv = deref(self.ev(f, env, expect)) if f['k'] != 'path' else deref(self.path_value(f['p'], env, expect))
        ptys = self.param_tys(fv, len(e['args']))
        if ptys is None and isinstance(fv, FnVal) and fv.name in ('Pin::new', 'Box::new', 'Arc::new', 'Box::pin', 'Rc::new', 'Cow::Borrowed', 'Cow::Owned'):
            ptys = [expect]
        args = [self.ev(a, env, ptys[i] if ptys and i < len(ptys) else None) for i, a in enumerate(e['args'])]
        self.ctx.sites.add((env.frame.name, e.get('line')))
        return self.call_value(fv, args, expect)

    def param_tys(self, fv, n):
        d = None
        if isinstance(fv, FnVal):
            d = fv.d
            if d is None and '::' in fv.name:
                base, nm = fv.name.rsplit('::', 1)
                td = self.w.typedefs.get(base)
                if td is not None and td.kind == 'enum':
                    for v in td.node['variants']:
                        if v['name'] == nm and v['kind'] == 'tuple':
                            fr = Frame(td.module, Ty(td.id))
                            return [self.ty(f['ty'], fr) for f in v['fields']]
                c = self.w.methods.get((base, nm))
                if c and len(c) == 1:
                    d = c[0][1]
            if d is None:
                td = self.w.typedefs.get(fv.name)
                if td is not None and td.kind == 'struct':
                    fr = Frame(td.module, Ty(td.id))
                    return [self.ty(f['ty'], fr) for f in td.node['fields']]
        if d is None:
            return None
        fr = self.impl_frame(d)
        ts = [self.ty(p['ty'], fr) for p in d.node['params']]
        if d.node['self'] and n == len(ts) + 1:
            ts = [None] + ts
        return ts

    def e_mcall(self, e, env, expect):
        name = e['name']
        rx = self.recv_expect(name, expect, env)
        recv = self.place(e['recv'], env) if e['recv']['k'] in ('path', 'field', 'index', 'unary') else None
        if recv is None:
            v = self.ev(e['recv'], env, rx)
            recv = v if isinstance(v, Ref) else temp(v)
        targs = [self.ty(t, env.frame) for t in e['targs']]
        # expected parameter types
        tid = self.tyid(recv)
        ptys = None
        c = self.w.methods.get((tid, name)) if tid else None
        if c and len(c) >= 1:
            fr = self.impl_frame(c[0][1])
            ptys = [self.ty(p['ty'], fr) for p in c[0][1].node['params']]
        elif name in ('unwrap_or', 'insert', 'push', 'get_or_insert', 'unwrap_or_else', 'contains') and expect is not None:
            ptys = [expect]
        args = [self.ev(a, env, ptys[i] if ptys and i < len(ptys) else None) for i, a in enumerate(e['args'])]
        self.ctx.sites.add((env.frame.name, e.get('line')))
        if name == 'unwrap_or_default' and expect is None:
            expect = self.payload_ty(e['recv'], env)
        return self.method(recv, name, args, targs, expect, e, env)

    def payload_ty(self, e, env):
        """Type of the payload of an Option expression as far as it is declared in the source."""
        if e['k'] == 'field':
            b = self.place(e['e'], env) if e['e']['k'] in ('path', 'field') else None
            b = deref(b) if b is not None else None
            t = self.field_ty(Ty(b.ty), e['name']) if isinstance(b, Struct) else None
            return t.arg(0) if t is not None and t[0] == 'Option' else None
        if e['k'] == 'mcall' and e['name'] == 'map' and e['args'] and e['args'][0]['k'] == 'closure' and e['args'][0]['body']['k'] == 'cast':
            return self.ty(e['args'][0]['body']['ty'], env.frame)
        if e['k'] == 'mcall' and e['name'] in ('clone', 'cloned', 'copied', 'filter'):
            return self.payload_ty(e['recv'], env)
        return None

    def recv_expect(self, name, expect, env):
        if expect is None:
            return None
        if name == 'ok':
            return Ty('Result', expect.arg(0), None) if expect[0] == 'Option' else None
        if name in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else'):
            return Ty('Option', expect) if False else Ty('OptOrRes', expect)
        if name in ('map_err', 'context', 'with_context', 'or_else', 'inspect_err', 'inspect'):
            return Ty(expect[0], expect.arg(0), None) if expect[0] in ('Result',) else expect
        if name in ('clone', 'boxed', 'as_ref', 'as_mut', 'await', 'instrument', 'bind_hub', 'to_owned', 'in_current_span', 'boxed_local'):
            return expect
        if name in ('ok_or', 'ok_or_else'):
            return Ty('Option', expect.arg(0)) if expect[0] == 'Result' else None
        return None

    def method(self, recv, name, args, targs=(), expect=None, node=None, env=None):
        return self.std.method(self, recv, name, args, targs, expect, node, env)

    def user_method(self, v, recv, name, args, targs, expect):
        """Methods defined in the workspace for v's type; returns (found, value)."""
        tid = self.tyid(v)
        ids = [tid]
        if tid == 'str':
            ids = ['String', 'str']
        elif tid == 'int':
            ids = ['u64', 'u32', 'usize', 'u16', 'u8', 'i64', 'i32']
        elif tid in ('Vec', 'Bytes'):
            ids = ['Vec', 'slice']
        elif tid == 'Map':
            ids = ['HashMap', 'BTreeMap']
        for t in ids:
            c = self.w.methods.get((t, name))
            if c:
                if len(c) > 1:
                    c = self.pick_impl(c, [recv] + list(args), expect)
                d = c[0][1]
                st = None
                if isinstance(v, Term):
                    st = v.ty
                if d.node['self'] is None:
                    continue
                return True, self.call_def(d, [recv] + list(args), selfty=st, targs=targs, expect=expect)
        # default methods of implemented traits
        for t in ids:
            for im in self.w.impls:
                if (im.self_id == t or im.self_id == '*') and im.trait_def is not None:
                    td = im.trait_def.extra or {}
                    if im.self_id == '*' and name in im.fns:
                        if t in self.w.typedefs or not self.std.has_builtin(tid, name):
                            if self.blanket_ok(im, t):
                                return True, self.call_def(im.fns[name], [recv] + list(args), targs=targs, expect=expect)
                    if im.self_id == t and name in td and td[name].node.get('body') is not None:
                        return True, self.call_def(td[name], [recv] + list(args), selfty=Ty(t) if not isinstance(v, Term) else v.ty, targs=targs, expect=expect)
        if tid and tid.startswith('dyn:'):
            td = self.w.typedefs.get(tid[4:])
            if td is not None and td.extra and name in td.extra and td.extra[name].node.get('body') is not None:
                return True, self.call_def(td.extra[name], [recv] + list(args), targs=targs, expect=expect)
        return False, None

    def blanket_ok(self, im, tid):
        """Does the type implement the traits a blanket impl is bound by?"""
        if tid is None:
            return False
        for g in im.node.get('generics', []):
            if g['n'] == im.tparams[0] if im.tparams else False:
                for b in g['b']:
                    n = b['segs'][-1][0]
                    if n in ('Sized', 'Send', 'Sync', 'Clone', 'Debug', 'ToString', 'Display'):
                        continue
                    d = self.w.resolve(im.module, [s[0] for s in b['segs']], 'type')
                    t = d.id if isinstance(d, Def) else n
                    if not any(i2.self_id == tid for i2 in self.w.by_trait.get(t, [])):
                        return False
        return True

    def e_field(self, e, env, expect):
        if e['e']['k'] in ('path', 'field', 'index', 'unary'):
            base = self.place(e['e'], env)
        else:
            base = self.ev(e['e'], env)
        v = self.field(base, e['name'])
        return v

    def e_index(self, e, env, expect):
        base = self.place(e['e'], env)
        idx = self.ev(e['i'], env)
        return self.std.index(self, deref(base), deref(idx), e)

    def e_unary(self, e, env, expect):
        op = e['op']
        if op == '*':
            v = self.ev(e['e'], env, expect)
            v = deref(v)
            if isinstance(v, Native) and hasattr(v, 'on_deref'):
                return v.on_deref()
            tid = self.tyid(v)
            if tid in self.w.typedefs:
                d = self.find_method_impl(tid, 'deref')
                if d is not None:
                    return self.call_def(d, [v])
            return v
        v = self.val(e['e'], env, expect)
        if op == '!':
            if isinstance(v, int) and not isinstance(v, bool):
                return Term('bitnot', (v,), None)
            if isinstance(v, Term) and is_int_ty(v.ty):
                return Term('bitnot', (v,), v.ty)
            return not self.ctx.truth(v)
        if op == '-':
            return scale(v, -1)
        raise Unsupported(f'unary {op}')

    def e_binary(self, e, env, expect):
        op = e['op']
        if op == '&&':
            if not self.ctx.truth(self.ev(e['l'], env)):
                return False
            return self.ctx.truth(self.ev(e['r'], env))
        if op == '||':
            if self.ctx.truth(self.ev(e['l'], env)):
                return True
            return self.ctx.truth(self.ev(e['r'], env))
        l = self.val(e['l'], env)
        r = self.val(e['r'], env, None)
        return self.binop(op, l, r)

    def binop(self, op, l, r):
        l, r = deref(l), deref(r)
        if op == '==':
            return self.eq(l, r)
        if op == '!=':
            return not self.eq(l, r)
        if op in ('<', '<=', '>', '>='):
            c = self.order(l, r, op)
            return c
        return self.arith(op, l, r)

    def order(self, l, r, op):
        try:
            lin(l), lin(r)
            intish = isinstance(l, (int, Fraction)) or isinstance(r, (int, Fraction)) or is_int_ty(getattr(l, 'ty', None)) or is_int_ty(getattr(r, 'ty', None))
        except Unsupported:
            intish = False
        if intish:
            if op == '<':
                return self.ctx.lt(l, r)
            if op == '<=':
                return self.ctx.le(l, r)
            if op == '>':
                return self.ctx.lt(r, l)
            return self.ctx.le(r, l)
        c = self.cmp(l, r)
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]

    def arith(self, op, l, r):
        if isinstance(l, Str) or (isinstance(l, Term) and l.ty == T_STR):
            if op == '+':
                return S(self.ctx.sstr(l), self.ctx.sstr(r))
        if isinstance(l, bool) or isinstance(r, bool):
            l, r = self.ctx.truth(l), self.ctx.truth(r)
            return {'&': l and r, '|': l or r, '^': l != r}[op]
        if isinstance(l, Term) and l.ty == T_BOOL:
            return self.arith(op, self.ctx.truth(l), self.ctx.truth(r))
        if isinstance(l, (int, Fraction)) and isinstance(r, (int, Fraction)):
            if op == '+':
                return l + r
            if op == '-':
                if l < r and (isinstance(l, Span) or isinstance(r, Span)):
                    raise RustPanic('overflow when subtracting durations')
                if 0 <= l < r and isinstance(l, int) and isinstance(r, int):
                    # sizes, counts, times and addresses are unsigned throughout
                    raise RustPanic('attempt to subtract with overflow')
                return l - r
            if op == '*':
                return l * r
            if op == '/':
                if r == 0:
                    raise RustPanic('division by zero')
                if isinstance(l, Fraction) or isinstance(r, Fraction):
                    return Fraction(l) / r
                return l // r if (l >= 0) == (r > 0) or l == 0 else -((-l) // r)
            if op == '%':
                if r == 0:
                    raise RustPanic('remainder by zero')
                return l % r
            if op == '<<':
                return l << r
            if op == '>>':
                return l >> r
            if op == '&':
                return l & r
            if op == '|':
                return l | r
            if op == '^':
                return l ^ r
        tid = self.tyid(l)
        opm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '|': 'bitor', '&': 'bitand'}.get(op)
        if tid in self.w.typedefs and opm:
            d = self.find_method_impl(tid, opm)
            if d is not None:
                return self.call_def(d, [l, r])
        if op in ('+', '-') and isinstance(l, (int, Term, Fraction)) and isinstance(r, (int, Term, Fraction)):
            if op == '+' and isinstance(r, int) and r >= TIME_MAX and isinstance(l, Term) and l.ty is not None and l.ty[0] in ('Instant', 'SystemTime'):
                raise RustPanic('overflow when adding duration to instant')
            return keep_time(add(l, r, 1 if op == '+' else -1), l, r, op)
        if op == '*':
            if isinstance(r, (int, Fraction)):
                return scale(l, r)
            if isinstance(l, (int, Fraction)):
                return scale(r, l)
            x, y = sorted((self.freeze(l), self.freeze(r)), key=repr)
            return Term('*', (x, y), int_ty(l, r))
        if op in ('&', '|', '^'):
            x, y = sorted((self.freeze(l), self.freeze(r)), key=repr)
            return Term(op, (x, y), getattr(l, 'ty', None) or getattr(r, 'ty', None))
        return Term(op, (self.freeze(l), self.freeze(r)), getattr(l, 'ty', None))

    def e_opassign(self, e, env, expect):
        ref = inner(self.place(e['l'], env))
        r = self.val(e['r'], env)
        l = ref.get()
        if isinstance(l, Native) and l.kind == 'lazydefault':
            rv = self.force(r)
            l = Str('') if isinstance(rv, Str) else 0
        tid = self.tyid(l)
        opm = {'+': 'add_assign', '-': 'sub_assign', '|': 'bitor_assign', '*': 'mul_assign', '&': 'bitand_assign'}.get(e['op'])
        if tid in self.w.typedefs and opm:
            d = self.find_method_impl(tid, opm)
            if d is not None:
                self.call_def(d, [ref, r])
                return UNIT
        ref.set(self.arith(e['op'], l, r))
        return UNIT

    def e_assign(self, e, env, expect):
        l = e['l']
        if l['k'] == 'infer' or (l['k'] == 'path' and l['p']['segs'][0][0] == '_'):
            self.ev(e['r'], env)
            return UNIT
        if l['k'] == 'tuple':
            v = self.force(self.ev(e['r'], env))
            for x, y in zip(l['es'], v.items):
                if x['k'] == 'infer':
                    continue
                self.place(x, env).set(y)
            return UNIT
        ref = self.place(l, env)
        t = None
        if l['k'] == 'path':
            c = env.find(l['p']['segs'][0][0])
            t = c.ty if c is not None else None
        cur = None
        if l['k'] == 'field':
            b = deref(self.place(l['e'], env))
            tid = self.tyid(b)
            if tid:
                t = self.field_ty(b.ty if isinstance(b, Term) else Ty(tid), l['name'])
        v = self.ev(e['r'], env, t)
        if l['k'] == 'unary':
            inner(ref).set(v)
        else:
            # assigning to a variable that holds a reference rebinds it
            ref.set(v)
        return UNIT

    def e_if(self, e, env, expect):
        sub = Env(env)
        c, hint = e['c'], None
        if c['k'] == 'letc' and c['e']['k'] in ('mcall', 'call'):
            hint = self.arm_hint([dict(pat=c['pat'], body=dict(k='block', stmts=e['t']))], expect, env.frame.ret)
        if self.cond(c, sub, hint):
            return self.block(e['t'], sub, expect)
        if e['e'] is not None:
            return self.ev(e['e'], env, expect)
        return UNIT

    def cond(self, c, env, hint=None):
        """Condition with let-chains; binds into env."""
        if c['k'] == 'letc':
            v = self.scrutinee(c['e'], env, hint)
            sub = Env(env)
            if self.bind(c['pat'], v, sub):
                env.vars.update(sub.vars)
                return True
            return False
        if c['k'] == 'binary' and c['op'] == '&&':
            return self.cond(c['l'], env) and self.cond(c['r'], env)
        return self.ctx.truth(self.ev(c, env, T_BOOL))

    def e_letc(self, e, env, expect):
        return self.bind(e['pat'], self.scrutinee(e['e'], env), env)

    def arm_hint(self, arms, expect, ret):
        """Type of a scrutinee whose payload an arm passes on: `Ok(x) => Ok(x)`, `Some(x) => x`, `Ok(x) => return x`."""
        for arm in arms:
            p, b, t = arm['pat'], arm['body'], expect
            if p['k'] != 'tstruct' or len(p['es']) != 1 or p['es'][0]['k'] != 'ident':
                continue
            w, n = p['p']['segs'][-1][0], p['es'][0]['name']
            while b['k'] == 'block' and len(b['stmts']) == 1 and b['stmts'][0]['k'] == 'expr':
                b = b['stmts'][0]['e']
            if b['k'] == 'return' and b['e'] is not None:
                b, t = b['e'], ret
            if t is None or w not in ('Ok', 'Some', 'Err'):
                continue
            i = 0
            if b['k'] == 'call' and b['f']['k'] == 'path' and len(b['args']) == 1:
                w2 = b['f']['p']['segs'][-1][0]
                i = 1 if w2 == 'Err' else 0
                if t[0] != ('Option' if w2 == 'Some' else 'Result') or w2 not in ('Ok', 'Some', 'Err'):
                    continue
                t, b = t.arg(i), b['args'][0]
            if t is None or b['k'] != 'path' or [s[0] for s in b['p']['segs']] != [n]:
                continue
            return Ty('Option', t) if w == 'Some' else Ty('Result', t, None) if w == 'Ok' else Ty('Result', None, t)

    def scrutinee(self, e, env, hint=None):
        k = e['k']
        if hint is not None and k in ('mcall', 'call'):
            return self.ev(e, env, hint)
        if k == 'ref' and e['mut']:
            return inner(self.place(e['e'], env))
        if k == 'path' or k == 'field':
            p = self.place(e, env)
            return p
        if k == 'unary' and e['op'] == '*':
            return self.place(e, env)
        return self.ev(e, env)

    def e_match(self, e, env, expect):
        v = self.scrutinee(e['e'], env, self.arm_hint(e['arms'], expect, env.frame.ret) if e['e']['k'] in ('mcall', 'call') else None)
        for arm in e['arms']:
            sub = Env(env)
            if self.bind(arm['pat'], v, sub):
                if arm['guard'] is not None:
                    if not self.cond(arm['guard'], sub):
                        continue
                return self.ev(arm['body'], sub, expect)
        raise Unsupported(f'no match arm for {show(v)}')

    def e_block(self, e, env, expect):
        if e.get('label'):
            try:
                return self.block(e['stmts'], env, expect)
            except BreakEx as b:
                if b.label == e['label']:
                    return b.v
                raise
        return self.block(e['stmts'], env, expect)

    def loop_body(self, body, env, label):
        """-> (stop, value)"""
        try:
            self.block(body, env)
        except ContinueEx as c:
            if c.label is not None and c.label != label:
                raise
        except BreakEx as b:
            if b.label is not None and b.label != label:
                raise
            return True, b.v
        return False, None

    def e_loop(self, e, env, expect):
        n = 0
        while True:
            stop, v = self.loop_body(e['body'], Env(env), e['label'])
            if stop:
                return v
            n += 1
            if n > self.loop_limit * 40:
                raise Unsupported(f'loop at line {e.get("line")} does not end within the bound')
            self.ctx.loop_count = n
            self.loop_tick(e, n)

    def loop_tick(self, e, n):
        """Cuts loops that depend on the environment after a few rounds."""
        key = ('loopbound', id(e))
        lim = getattr(self, 'env_loop_limit', None)
        if lim is not None and n >= lim:
            raise Infeasible()

    def e_while(self, e, env, expect):
        n = 0
        while True:
            sub = Env(env)
            if not self.cond(e['c'], sub):
                return UNIT
            stop, v = self.loop_body(e['body'], sub, e['label'])
            if stop:
                return UNIT
            n += 1
            if n > self.loop_limit * 40:
                raise Unsupported(f'loop at line {e.get("line")} does not end within the bound')
            self.loop_tick(e, n)

    def e_for(self, e, env, expect):
        it = self.scrutinee_iter(e['e'], env)
        for x in self.std.iterate(self, it):
            sub = Env(env)
            if not self.bind(e['pat'], x, sub):
                raise Unsupported('refutable for pattern')
            stop, v = self.loop_body(e['body'], sub, e['label'])
            if stop:
                break
        return UNIT

    def scrutinee_iter(self, e, env):
        if e['k'] == 'ref' and e['mut']:
            return inner(self.place(e['e'], env))
        if e['k'] == 'path':
            v = self.ev(e, env)
            if isinstance(v, Ref):
                return v
            return deref(v)
        return self.ev(e, env)

    def e_break(self, e, env, expect):
        raise BreakEx(e['label'], self.ev(e['e'], env) if e['e'] is not None else UNIT)

    def e_continue(self, e, env, expect):
        raise ContinueEx(e['label'])

    def e_return(self, e, env, expect):
        fr = env.frame
        raise ReturnEx(self.ev(e['e'], env, fr.ret) if e['e'] is not None else UNIT)

    def e_closure(self, e, env, expect):
        return Closure(e, env)

    def e_struct(self, e, env, expect):
        fr = env.frame
        p = e['p']
        segs = [s[0] for s in p['segs']]
        ty = None
        variant = None
        if segs[0] == 'Self' and len(segs) == 1:
            ty = fr.selfty
        elif segs[0] == 'Self':
            d0 = self.typedef(fr.selfty)
            if d0 is not None and d0.kind == 'enum':
                variant = (d0, segs[1])
        else:
            d = self.w.resolve(fr.module, segs, 'value')
            if isinstance(d, Def) and d.kind == 'variant':
                variant = (d.extra, d.name)
            else:
                ty = self.path_ty(p, fr)
        if variant is not None:
            ed, vn = variant
            fields = {}
            for v in ed.node['variants']:
                if v['name'] == vn:
                    fts = {f['name']: f['ty'] for f in v['fields']}
            f2 = self.struct_frame(ed, Ty(ed.id))
            for f in e['fields']:
                t = self.ty(fts[f['n']], f2) if f['n'] in fts else None
                fields[f['n']] = self.own(self.ev(f['e'], env, t), t)
            return Enum(ed.id, vn, fields)
        d = self.typedef(ty)
        if d is None:
            # struct of another crate
            name = segs[-1]
            fields = {f['n']: self.own(self.ev(f['e'], env), None) for f in e['fields']}
            if e['rest'] is not None:
                rest = self.freeze(self.ev(e['rest'], env, ty))
                return Term(name, tuple(sorted(((k, self.freeze(v)) for k, v in fields.items()))) + (('..', rest),), ty)
            return Struct(name, fields)
        if expect is not None and expect[0] == d.id and len(expect) > len(ty):
            ty = expect
        f2 = self.struct_frame(d, ty)
        fts = {f['name']: f['ty'] for f in d.node['fields']}
        given = {}
        for f in e['fields']:
            t = self.ty(fts[f['n']], f2) if f['n'] in fts else None
            given[f['n']] = self.own(self.ev(f['e'], env, t), t)
        fields = {}
        base = None
        if e['rest'] is not None:
            base = deref(self.ev(e['rest'], env, ty))
        for f in d.node['fields']:
            if f['name'] in given:
                fields[f['name']] = given[f['name']]
            elif base is not None:
                fields[f['name']] = self.clone(self.field(base, f['name'], ty))
        return Struct(d.id, fields, tuple(ty.args))

    def own(self, v, t):
        return self.retype(v, t)

    def e_tuple(self, e, env, expect):
        if not e['es']:
            return UNIT
        ts = expect.args if expect is not None and expect[0] == 'tuple' else ()
        return Tup([self.ev(x, env, ts[i] if i < len(ts) else None) for i, x in enumerate(e['es'])])

    def e_array(self, e, env, expect):
        t = expect.arg(0) if expect is not None and expect[0] == 'Vec' else None
        return Vec([self.ev(x, env, t) for x in e['es']])

    def e_repeat(self, e, env, expect):
        v = self.ev(e['e'], env)
        n = self.val(e['n'], env)
        if isinstance(n, int) and n <= 64:
            return Vec([self.clone(v) for _ in range(n)])
        return Term('repeat', (self.freeze(v), self.freeze(n)), Ty('Bytes'))

    def e_ref(self, e, env, expect):
        if e['mut']:
            return inner(self.place(e['e'], env))
        v = self.ev(e['e'], env, expect)
        return v

    def e_try(self, e, env, expect):
        fr = env.frame
        rt = fr.ret
        ex = None
        if expect is not None:
            if rt is not None and rt[0] in ('Option', 'Result'):
                ex = Ty(rt[0], expect, None) if rt[0] == 'Result' else Ty('Option', expect)
            else:
                ex = Ty('OptOrRes', expect)
        v = self.ev(e['e'], env, ex)
        g = self.std.guard_of(v)
        if g is not None:
            return Ref(g.get, g.set)
        return self.try_value(deref(v), fr, expect)

    def try_value(self, v, fr, expect=None):
        rt = fr.ret
        if isinstance(v, Future):
            raise Unsupported('? on future')
        if isinstance(v, Term) and (v.ty is None or v.ty[0] not in ('Option', 'Result', 'ControlFlow', 'Poll')):
            if rt is not None and rt[0] == 'Option':
                v = self.force(Term(v.op, v.args, Ty('Option', expect)))
            else:
                v = self.force(Term(v.op, v.args, Ty('Result', expect, None)))
        else:
            v = self.force(v)
        if not isinstance(v, Enum):
            raise Unsupported(f'? on {show(v)}')
        if v.variant in ('Some', 'Ok'):
            return v.fields[0] if v.fields else UNIT
        if v.variant == 'None':
            raise ReturnEx(none())
        if v.variant == 'Err':
            ev_ = v.fields[0]
            et = rt.arg(1) if rt is not None and rt[0] == 'Result' else None
            raise ReturnEx(err(self.std.convert(self, ev_, et) if et is not None else ev_))
        raise Unsupported(f'? on {show(v)}')

    def e_await(self, e, env, expect):
        v = deref(self.ev(e['e'], env, expect))
        return self.await_value(v)

    def await_value(self, v):
        v = deref(v)
        if isinstance(v, Future):
            return v.force()
        if isinstance(v, Native) and hasattr(v, 'await_'):
            return v.await_()
        tid = self.tyid(v)
        if tid in self.w.typedefs:
            for nm in ('into_future',):
                d = self.find_method_impl(tid, nm)
                if d is not None:
                    return self.await_value(self.call_def(d, [v]))
        return v

    def e_async(self, e, env, expect):
        fr0 = env.frame
        fr = Frame(fr0.module, fr0.selfty, None, fr0.tparams, fr0.name, fr0.impl)
        sub = Env(env)
        sub.frame = fr
        # inside a boxed async block of a method returning BoxFuture<T>, T is the block's type
        fr.ret = expect
        if expect is None and fr0.ret is not None:
            fr.ret = None

        def run():
            r = None
            try:
                r = self.block(e['stmts'], sub, fr.ret)
            except ReturnEx as x:
                r = x.v
            finally:
                if self.drops is not None:
                    self.drops.end(fut, r)
            return r
        fut = Future(run, f'async:{e.get("line")}')
        if self.drops is not None:
            self.drops.capture(e, env, fut)
        return fut

    def e_range(self, e, env, expect):
        lo = self.val(e['lo'], env) if e['lo'] is not None else None
        hi = self.val(e['hi'], env) if e['hi'] is not None else None
        return Native('range', lo=lo, hi=hi, incl=e['incl'], start=lo, end=hi)

    def e_cast(self, e, env, expect):
        v = self.val(e['e'], env)
        t = self.ty(e['ty'], env.frame)
        return self.std.cast(self, v, t)

    def e_macro(self, e, env, expect):
        return self.std.macro(self, e, env, expect)

    def e_expanded(self, e, env, expect):
        return self.ev(e['e'], env, expect)

    def e_select(self, e, env, expect):
        """tokio::select!: the preconditions are evaluated once; an arm whose pattern does not match is disabled."""
        arms = [a for a in e['arms'] if a['fut'] is not None]
        other = [a for a in e['arms'] if a['fut'] is None]
        on = [i for i, a in enumerate(arms) if a['cond'] is None or self.ctx.truth(self.ev(a['cond'], env))]
        hook = getattr(self, 'select_hook', None)
        if hook:
            hook(on)
        while on:
            n = self.ctx.counter['select'] = self.ctx.counter.get('select', 0) + 1
            i = self.ctx.choose(('select', env.frame.name, n), on)
            sub = Env(env)
            if self.bind(arms[i]['pat'], self.await_value(self.ev(arms[i]['fut'], env)), sub):
                return self.ev(arms[i]['body'], sub, expect)
            on.remove(i)
        if other:
            return self.ev(other[0]['body'], env, expect)
        raise RustPanic('all branches of select! are disabled and there is no else branch')

    def e_tryblock(self, e, env, expect):
        fr0 = env.frame
        fr = Frame(fr0.module, fr0.selfty, expect, fr0.tparams, fr0.name, fr0.impl)
        sub = Env(env)
        sub.frame = fr
        try:
            return ok(self.block(e['stmts'], sub))
        except ReturnEx as r:
            return r.v

    def e_infer(self, e, env, expect):
        return UNIT

    def e_let(self, e, env, expect):
        return self.e_letc(e, env, expect)


EV = {k[2:]: v for k, v in Interp.__dict__.items() if k.startswith('e_')}
