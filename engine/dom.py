"""The abstract domain: uninterpreted terms, string templates, linear integers, facts, and the
path context that partitions the analysis by the facts an execution depends on."""
from fractions import Fraction

INF = float('inf')


class Unsupported(Exception):
    """The analysis does not know a construct of the source."""


class Infeasible(Exception):
    pass


class RustPanic(Exception):
    def __init__(self, msg, where=None):
        self.msg = msg
        self.where = where


# ---- types --------------------------------------------------------------
class Ty(tuple):
    """(name, *args)"""
    __slots__ = ()

    def __new__(cls, name, *args):
        return tuple.__new__(cls, (name,) + args)

    @property
    def name(self):
        return self[0]

    @property
    def args(self):
        return self[1:]

    def arg(self, i):
        return self[i + 1] if len(self) > i + 1 else None

    def __repr__(self):
        return self[0].split('::')[-1] + ('<' + ','.join(map(repr, self[1:])) + '>' if len(self) > 1 else '')


T_STR = Ty('str')
T_BOOL = Ty('bool')
T_USIZE = Ty('usize')
T_CHAR = Ty('char')
INT_TYPES = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}
INT_BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}


def is_int_ty(t):
    return t is not None and (t[0] in INT_TYPES or t[0] in ('Duration', 'SystemTime', 'Instant'))


# ---- values --------------------------------------------------------------
class Term:
    """An uninterpreted value. Equality is structural and ignores the type."""
    __slots__ = ('op', 'args', 'ty', '_h')

    def __init__(self, op, args=(), ty=None):
        self.op = op
        self.args = tuple(args)
        self.ty = ty
        self._h = hash((op, self.args))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, Term) and self._h == o._h and self.op == o.op and self.args == o.args

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        if not self.args:
            return self.op
        if self.op == 'field':
            return f'{self.args[0]!r}.{self.args[1]}'
        if self.op in ('some', 'ok'):
            return f'{self.args[0]!r}?'
        if self.op == 'slice':
            return f"{self.args[0]!r}[{self.args[1]}..{'' if self.args[2] is None else self.args[2]}]"
        if self.op == 'lin':
            return '(' + ' + '.join((f'{c}*' if c != 1 else '') + repr(t) for t, c in self.args[1]) + (f' + {self.args[0]}' if self.args[0] else '') + ')'
        return f"{self.op}({', '.join(show(a) for a in self.args)})"


class Str:
    """A string (or byte string) template: literal pieces and string-typed terms."""
    __slots__ = ('parts', '_h')

    def __init__(self, parts=()):
        if isinstance(parts, str):
            parts = (parts,) if parts else ()
        self.parts = tuple(parts)
        self._h = hash(self.parts)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Str) and self.parts == o.parts

    def __ne__(self, o):
        return not self == o

    def lit(self):
        """The literal value, or None."""
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __repr__(self):
        return '"' + ''.join(p if isinstance(p, str) else '{' + repr(p) + '}' for p in self.parts) + '"'


class Chr:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __hash__(self):
        return hash(('chr', self.c))

    def __eq__(self, o):
        return isinstance(o, Chr) and o.c == self.c

    def __repr__(self):
        return repr(self.c)


class Unit:
    def __repr__(self):
        return '()'


UNIT = Unit()


class Enum:
    __slots__ = ('ty', 'variant', 'fields')

    def __init__(self, ty, variant, fields=()):
        self.ty = ty          # type id: 'Option', 'Result', or 'crate::path::Name'
        self.variant = variant
        self.fields = fields if isinstance(fields, dict) else list(fields)

    def __repr__(self):
        if not self.fields:
            return self.variant
        if isinstance(self.fields, dict):
            return f'{self.variant}{{' + ', '.join(f'{k}: {show(v)}' for k, v in self.fields.items()) + '}'
        return f"{self.variant}({', '.join(map(show, self.fields))})"

    def get(self, i):
        if isinstance(self.fields, dict):
            return self.fields[i]
        return self.fields[int(i)]


class Struct:
    __slots__ = ('ty', 'fields', 'tyargs')

    def __init__(self, ty, fields, tyargs=()):
        self.ty = ty
        self.fields = fields
        self.tyargs = tyargs

    def __repr__(self):
        return self.ty.split('::')[-1] + '{' + ', '.join(f'{k}: {show(v)}' for k, v in self.fields.items()) + '}'


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return '(' + ', '.join(map(show, self.items)) + ')'


class Vec:
    __slots__ = ('items', 'kind')

    def __init__(self, items=(), kind='Vec'):
        self.items = list(items)
        self.kind = kind      # 'Vec' | 'Set' | 'Bytes'

    def __repr__(self):
        return '[' + ', '.join(map(show, self.items)) + ']'


class Map:
    __slots__ = ('items', 'base', 'vty')

    def __init__(self, items=(), base=None, vty=None):
        self.items = [list(x) for x in items]    # [[key, value]]
        self.base = base
        self.vty = vty      # type of the values, where it is known

    def __repr__(self):
        return '{' + ', '.join(f'{show(k)}: {show(v)}' for k, v in self.items) + '}'


class Iter:
    """A lazy iterator; `it` is a python iterator."""

    def __init__(self, it, src=None):
        self.it = iter(it)
        self.buf = []
        self.src = src

    def next(self):
        """-> (True, v) or (False, None)"""
        if self.buf:
            return True, self.buf.pop(0)
        try:
            return True, next(self.it)
        except StopIteration:
            return False, None

    def __iter__(self):
        while True:
            ok, v = self.next()
            if not ok:
                return
            yield v

    def materialize(self):
        l = list(self)
        self.buf = l
        self.it = iter(())
        return l

    def __repr__(self):
        return '<iter>'


class Closure:
    __slots__ = ('node', 'env', 'interp', 'name')

    def __init__(self, node, env, name=None):
        self.node = node
        self.env = env
        self.name = name

    def __hash__(self):
        return hash(('closure', self.node.get('line')))

    def __eq__(self, o):
        return isinstance(o, Closure) and o.node is self.node

    def __repr__(self):
        return f"<closure:{self.node.get('line')}>"


class FnVal:
    """A function item or constructor used as a value; call(args) -> value"""
    __slots__ = ('name', 'call', 'd')

    def __init__(self, name, call, d=None):
        self.name = name
        self.call = call
        self.d = d

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return isinstance(o, FnVal) and self.name == o.name

    def __repr__(self):
        return f'<fn {self.name}>'


class Future:
    __slots__ = ('thunk', 'done', 'val', 'name')

    def __init__(self, thunk, name='async'):
        self.thunk = thunk
        self.done = False
        self.val = None
        self.name = name

    def force(self):
        if not self.done:
            self.val = self.thunk()
            self.done = True
        return self.val

    def __repr__(self):
        return f'<future {self.name}>'


class Cell:
    __slots__ = ('v', 'ty')

    def __init__(self, v=None, ty=None):
        self.v = v
        self.ty = ty


class Ref:
    """A mutable reference to a place."""
    __slots__ = ('get', 'set')

    def __init__(self, get, set_):
        self.get = get
        self.set = set_

    def __repr__(self):
        return f'&mut {self.get()!r}'


class Native:
    """Mutable helper object of the analysis (formatter, channel, ...)."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return f'<{self.kind}>'


def deref(v):
    n = 0
    while isinstance(v, Ref):
        v = v.get()
        n += 1
        if n > 10000:
            raise Unsupported('a reference to itself')
    return v


def show(v):
    v = deref(v)
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    return repr(v)


def some(v):
    return Enum('Option', 'Some', [v])


def none():
    return Enum('Option', 'None', [])


def ok(v=UNIT):
    return Enum('Result', 'Ok', [v])


def err(v):
    return Enum('Result', 'Err', [v])


def S(*parts):
    """Template from literals, terms and templates."""
    out = []
    for p in parts:
        p = deref(p)
        if isinstance(p, Str):
            out.extend(p.parts)
        elif isinstance(p, Chr):
            out.append(p.c)
        else:
            out.append(p)
    return Str(merge(out))


# ---- integers --------------------------------------------------------------
def lin(v):
    """-> (const, {term: coef})"""
    v = deref(v)
    if isinstance(v, bool):
        raise Unsupported('bool used as integer')
    if isinstance(v, (int, Fraction)):
        return v, {}
    if isinstance(v, Term):
        if v.op == 'lin':
            return v.args[0], dict(v.args[1])
        return 0, {v: 1}
    raise Unsupported(f'not an integer: {show(v)}')


def unlin(c, ts, ty=T_USIZE):
    ts = {t: k for t, k in ts.items() if k}
    if not ts:
        return c
    if c == 0 and len(ts) == 1:
        (t, k), = ts.items()
        if k == 1:
            return t
    return Term('lin', (c, tuple(sorted(ts.items(), key=lambda x: repr(x[0])))), ty)


def int_ty(*vs):
    for v in vs:
        if isinstance(v, Term) and v.ty is not None:
            return v.ty
    return T_USIZE


def add(a, b, sign=1):
    a, b = deref(a), deref(b)
    if isinstance(a, int) and isinstance(b, int):
        return a + sign * b
    c1, t1 = lin(a)
    c2, t2 = lin(b)
    ts = dict(t1)
    for t, k in t2.items():
        ts[t] = ts.get(t, 0) + sign * k
    return unlin(c1 + sign * c2, ts, int_ty(a, b))


def scale(a, k):
    c, ts = lin(a)
    return unlin(c * k, {t: x * k for t, x in ts.items()}, int_ty(a))


# ---- strings ---------------------------------------------------------------
HEXL = frozenset('0123456789abcdef')
HEXU = frozenset('0123456789ABCDEF')
HEXM = HEXL | HEXU
DIGITS = frozenset('0123456789')

# charset and length of known string-valued operations
ATOM_CHARSET = {
    'uuid_simple': HEXL, 'uuid_hyph': HEXL | {'-'}, 'hex': HEXL, 'code_id_str': HEXL,
    'breakpad': HEXM, 'plain': HEXL, 'human duration': HEXL | {' ', 'z'}, 'int': DIGITS | {'-'}, 'hexn': HEXL,
}
ATOM_LEN = {'uuid_simple': 32, 'uuid_hyph': 36}
SUB_OPS = ('slice', 'pre', 'post', 'preof', 'postof', 'before', 'after', 'rbefore', 'rafter', 'stem', 'rest', 'init', 'tailch', 'trim', 'trim_start', 'trim_end', 'basename', 'elem', 'beforeset', 'afterset', 'rbeforeset', 'rafterset', 'atset', 'ratset', 'charfilter')


def atom_charset(a):
    """Superset of the characters of an atom, or None."""
    if not isinstance(a, Term):
        return None
    cs = ATOM_CHARSET.get(a.op)
    if cs is not None:
        return cs
    if a.op in SUB_OPS and a.args:
        return atom_charset(a.args[0]) if isinstance(a.args[0], Term) else None
    if a.op in ('lower', 'alower', 'upper', 'aupper'):
        cs = atom_charset(a.args[0])
        if cs is None:
            return None
        return frozenset(x.lower() if 'lower' in a.op else x.upper() for x in cs)
    return None


def is_ascii(a):
    cs = atom_charset(a)
    return cs is not None


def atom_len(a):
    """Known length or None"""
    if a.op in ATOM_LEN:
        return ATOM_LEN[a.op]
    if a.op in ('hexn', 'pre', 'post'):
        return a.args[1] if a.op != 'post' else a.args[2]
    if a.op == 'slice' and a.args[2] is not None:
        return a.args[2] - a.args[1]
    if a.op == 'slice' and isinstance(a.args[0], Term):
        n = atom_len(a.args[0])
        return None if n is None else n - a.args[1]
    if a.op in ('alower', 'aupper') or (a.op in ('lower', 'upper') and is_ascii(a.args[0])):
        return atom_len(a.args[0])
    return None


def mk_slice(base, lo, hi):
    """Slice of an atom, with case changes kept outside and nested slices flattened."""
    if isinstance(base, Term):
        n = atom_len(base)
        if n is not None and hi is None:
            hi = n
        if lo == 0 and (hi is None or hi == n):
            return base
        if hi is not None and hi <= lo:
            return ''
        if base.op in ('alower', 'aupper') or (base.op in ('lower', 'upper') and is_ascii(base.args[0])):
            inner = mk_slice(base.args[0], lo, hi)
            return Term(base.op, (inner,), T_STR) if isinstance(inner, Term) else inner
        if base.op == 'slice':
            l2, h2 = base.args[1] + lo, (base.args[2] if hi is None else base.args[1] + hi)
            return mk_slice(base.args[0], l2, h2)
    return Term('slice', (base, lo, hi), T_STR)


def drop_char(p, right, ascii):
    """The atom without its last (first) character."""
    if ascii and isinstance(p, Term) and (p.op == 'slice' or atom_charset(p) is not None):
        a, b = (p.args[1], p.args[2]) if p.op == 'slice' else (0, atom_len(p))
        if right and b is not None and (p.op == 'slice' or atom_charset(p)):
            return mk_slice(p, 0, b - a - 1)
        if not right:
            return mk_slice(p, 1, None if b is None else b - a)
    return Term('init' if right else 'tailch', (p,), T_STR)


def cut_end(q, lit, right):
    """A piece of known length without the ASCII literal it ends (starts) with."""
    if not isinstance(q, Term) or q.op != 'slice' or q.args[2] is None or not lit.isascii():
        return None
    n = q.args[2] - q.args[1]
    r = mk_slice(q, 0, n - len(lit)) if right else mk_slice(q, len(lit), n)
    return r if isinstance(r, Term) else None


def case_atom(op, a):
    cs = atom_charset(a)
    if cs is not None:
        op = op.lstrip('a') if op != 'aupper' and op != 'alower' else op[1:]
        f = str.lower if op == 'lower' else str.upper
        if all(f(c) == c for c in cs):
            return a
        if isinstance(a, Term) and a.op in ('lower', 'upper'):
            return case_atom(op, a.args[0])
    if isinstance(a, Term) and a.op == op:
        return a
    return Term(op, (a,), T_STR)


def case_str(op, s):
    f = str.lower if 'lower' in op else str.upper

    def lf(x):
        if op[0] == 'a':
            return ''.join(f(c) if c.isascii() else c for c in x)
        return f(x)
    return Str(merge([lf(p) if isinstance(p, str) else case_atom(op, p) for p in s.parts]))


def merge(parts):
    """Merge adjacent literals and adjacent slices of the same atom."""
    out = []
    for p in parts:
        if p == '':
            continue
        if isinstance(p, (int, Fraction)) and not isinstance(p, bool):
            p = str(p)
        if isinstance(p, Chr):
            p = p.c
        if isinstance(p, Str):
            raise Unsupported('nested template')
        if out:
            q = out[-1]
            if isinstance(p, str) and isinstance(q, str):
                out[-1] = q + p
                continue
            m = join_atoms(q, p)
            if m is not None:
                out[-1] = m
                continue
        out.append(p)
    return tuple(out)


def join_atoms(q, p):
    if not (isinstance(p, Term) and isinstance(q, Term)):
        return None
    if q.op == 'slice' and p.op == 'slice' and q.args[0] == p.args[0] and q.args[2] is not None and q.args[2] == p.args[1]:
        return mk_slice(q.args[0], q.args[1], p.args[2])
    if q.op == p.op and q.op in ('lower', 'upper', 'alower', 'aupper'):
        m = join_atoms(q.args[0], p.args[0])
        if m is not None and isinstance(m, Term):
            return Term(q.op, (m,), T_STR)
    if q.op == 'init' and p.op == 'lastch' and q.args == p.args:
        return q.args[0]
    return None


class Ctx:
    """One path of the analysis: the decisions taken so far and everything implied by them."""

    def __init__(self, script=()):
        self.script = script
        self.log = []            # (choice, options)
        self.facts = {}          # key -> value
        self.subst = {}          # string atom -> Str (or literal)
        self.defs = set()        # atoms introduced as pieces of another atom
        self.bounds = {}         # canonical linear form -> (lo, hi)
        self.path = []           # human readable decisions
        self.trace = []          # effects
        self.counter = {}
        self.timers = []            # running tokio::time::timeout calls
        self.fns = set()
        self.sites = set()
        self.k = 2               # elements of a symbolic collection
        self.implied = []        # callbacks (key, value) -> None, for domain axioms

    # -- decisions --
    def pick(self, n, what):
        i = len(self.log)
        c = self.script[i] if i < len(self.script) else 0
        self.log.append((c, n))
        return c

    def choose(self, key, options, desc=None):
        """Decides an atom; options is the list of possible values."""
        key = self.normkey(key)
        if key in self.facts:
            return self.facts[key]
        if len(options) == 1:
            v = options[0]
        else:
            v = options[self.pick(len(options), key)]
            self.path.append((desc or key, v))
        self.facts[key] = v
        return v

    def known(self, key):
        return self.facts.get(self.normkey(key))

    def assume(self, key, v):
        key = self.normkey(key)
        if key in self.facts and self.facts[key] != v:
            raise Infeasible()
        self.facts[key] = v

    def fresh(self, op, args=(), ty=None):
        n = self.counter.get(op, 0)
        self.counter[op] = n + 1
        return Term(op, tuple(args) + ((f'#{n}',) if n else ()), ty)

    def effect(self, name, *args):
        self.trace.append((name,) + args)

    # -- normalisation --
    def normkey(self, key):
        if not self.subst:
            return key
        return self.norm(key)

    def norm(self, v):
        """Applies what is known about string atoms."""
        if not self.subst:
            return v
        return self._norm(v)

    def _norm(self, v):
        if isinstance(v, Term):
            if v in self.subst:
                s = self._norm(self.subst[v])
                return s
            if v in self.defs:
                return v
            args = tuple(self._norm(a) for a in v.args)
            if args != v.args:
                return self.rebuild(v, args)
            return v
        if isinstance(v, Str):
            out = []
            for p in v.parts:
                if isinstance(p, str):
                    out.append(p)
                else:
                    q = self._norm(p)
                    if isinstance(q, Str):
                        out.extend(q.parts)
                    else:
                        out.append(q)
            return Str(merge(out))
        if isinstance(v, tuple) and not isinstance(v, Ty):
            return tuple(self._norm(a) for a in v)
        return v

    def rebuild(self, t, args):
        """Term with changed arguments; keeps string operations in normal form."""
        a0 = args[0] if args else None
        if isinstance(a0, Str) and len(a0.parts) == 1 and isinstance(a0.parts[0], Term):
            a0 = a0.parts[0]
            args = (a0,) + args[1:]
        if t.op in ('lower', 'upper', 'alower', 'aupper'):
            if isinstance(a0, Str):
                r = self._norm(case_str(t.op, a0))
                return r.parts[0] if len(r.parts) == 1 and isinstance(r.parts[0], Term) else r
            return case_atom(t.op, a0)
        if t.op == 'slice' and isinstance(a0, Str):
            lo, hi = args[1], args[2]
            try:
                r = self.split_at(a0, lo, decide=False)
                if r is not None:
                    s = r[1]
                    if hi is not None:
                        r2 = self.split_at(s, hi - lo, decide=False)
                        if r2 is None:
                            return Term(t.op, args, t.ty)
                        s = r2[0]
                    return s.parts[0] if len(s.parts) == 1 and isinstance(s.parts[0], Term) else s
            except Unsupported:
                pass
        if t.op == 'len' and isinstance(a0, Str):
            return self.str_len(a0)
        if t.op == 'lin':
            c = args[0]
            r = c
            for x, k in args[1]:
                r = add(r, scale(x, k))
            return r
        return Term(t.op, args, t.ty)

    @staticmethod
    def absurd(k, v):
        """Does a fact about strings that have become literal contradict itself?"""
        if not (isinstance(k, tuple) and len(k) == 3 and k[0] in ('streq', 'ends', 'starts', 'contains')):
            return False
        a, b = (x.lit() if isinstance(x, Str) else x if isinstance(x, str) else None for x in k[1:])
        if a is None or b is None:
            return False
        r = {'streq': a == b, 'ends': a.endswith(b), 'starts': a.startswith(b), 'contains': b in a}[k[0]]
        return r != v

    def refine(self, atom, s):
        """Record that the atom equals a template."""
        if isinstance(s, str):
            s = Str(s)
        if isinstance(s, Term):
            s = Str((s,))
        self.defs.update(p for p in s.parts if isinstance(p, Term))
        n = self.alen(atom) if isinstance(atom, Term) else None
        if isinstance(n, int) and s.parts != (atom,):
            ts = [p for p in s.parts if isinstance(p, Term)]
            un = [p for p in ts if not isinstance(self.alen(p), int)]
            rest = n - sum(len(p) if isinstance(p, str) else self.alen(p) for p in s.parts if p not in un)
            if rest < 0 or (not un and rest != 0):
                raise Infeasible()
            if len(un) == 1 and rest > 0:
                self.subst[Term('len', (un[0],), T_USIZE)] = rest
        self.subst[atom] = s
        facts = {}
        for k, v in self.facts.items():
            k = self._norm(k)
            if facts.get(k, v) != v or self.absurd(k, v):
                raise Infeasible()
            facts[k] = v
        self.facts = facts
        nb = {}
        for k, (lo, hi) in self.bounds.items():
            k2 = self._norm(k)
            if k2 == k:
                nb[k] = (lo, hi)
                continue
            c, ts = lin(k2) if not isinstance(k2, (int, Fraction)) else (k2, {})
            if not ts:
                if not (lo <= c <= hi):
                    raise Infeasible()
                continue
            kk, sign, off = self.canon(unlin(c, ts))
            l2, h2 = ((lo - off), (hi - off)) if sign > 0 else (-(hi - off), -(lo - off))
            o = nb.get(kk, (-INF, INF))
            nb[kk] = (max(o[0], l2), min(o[1], h2))
            if nb[kk][0] > nb[kk][1]:
                raise Infeasible()
        self.bounds = nb

    # -- booleans --
    def truth(self, v):
        v = deref(v)
        if v is True or v is False:
            return v
        if isinstance(v, Term):
            if v.op == 'not':
                return not self.truth(v.args[0])
            return self.choose(('bool', v), [True, False], v)
        if hasattr(v, 'eval_truth'):
            return v.eval_truth(self)
        raise Unsupported(f'not a boolean: {show(v)}')

    # -- integers --
    def canon(self, v):
        """-> (key term, sign, offset): v == sign * key + offset"""
        c, ts = lin(v)
        items = sorted(((t, k) for t, k in ts.items() if k), key=lambda x: repr(x[0]))
        sign = 1 if items[0][1] > 0 else -1
        ts2 = {t: k * sign for t, k in items}
        return unlin(0, ts2), sign, c

    def type_range(self, key):
        if key.op == 'len':
            return 0, INF
        t = key.ty
        if key.op != 'lin' and t is not None:
            if t[0] in INT_BITS:
                if t[0][0] == 'u':
                    return 0, 2 ** INT_BITS[t[0]] - 1
                return -2 ** (INT_BITS[t[0]] - 1), 2 ** (INT_BITS[t[0]] - 1) - 1
            if t[0] in ('Duration',):
                return 0, INF
            if t[0] in ('SystemTime', 'Instant'):
                return 0, 2 ** 61 * 10 ** 9
        if key.op == 'lin':
            lo = hi = 0
            for x, k in key.args[1]:
                a, b = self.bounds.get(x) or self.type_range(x)
                if k < 0:
                    a, b = b, a
                lo += a * k if a not in (INF, -INF) else (a if k > 0 else -a)
                hi += b * k if b not in (INF, -INF) else (b if k > 0 else -b)
                if lo != lo:
                    lo = -INF
                if hi != hi:
                    hi = INF
            return lo, hi
        return -INF, INF

    def range_of(self, v):
        v = self.norm(v)
        c, ts = lin(v)
        if not any(ts.values()):
            return c, c
        key, sign, off = self.canon(v)
        lo, hi = self.bounds.get(key) or self.type_range(key)
        tl, th = self.type_range(key)
        lo, hi = max(lo, tl), min(hi, th)
        if sign < 0:
            lo, hi = -hi, -lo
        return lo + off, hi + off

    def le(self, a, b):
        """a <= b"""
        return self.is_nonneg(add(b, a, -1), (a, '<=', b))

    def lt(self, a, b):
        return self.is_nonneg(add(add(b, a, -1), -1), (a, '<', b))

    def is_nonneg(self, d, desc):
        d = self.norm(d)
        lo, hi = self.range_of(d)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        key, sign, off = self.canon(d)
        v = [True, False][self.pick(2, key)]
        self.path.append((f'{show(desc[0])} {desc[1]} {show(desc[2])}', v))
        o = self.bounds.get(key) or self.type_range(key)
        # d = sign*key + off ; d >= 0 or d <= -1
        if sign > 0:
            n = (max(o[0], -off), o[1]) if v else (o[0], min(o[1], -off - 1))
        else:
            n = (o[0], min(o[1], off)) if v else (max(o[0], off + 1), o[1])
        t = self.type_range(key)
        n = (max(n[0], t[0]), min(n[1], t[1]))
        self.bounds[key] = n
        self.len_refine(key, n)
        return v

    def len_refine(self, key, n):
        if key.op == 'len' and key.args and isinstance(key.args[0], Term):
            a = key.args[0]
            if a.ty is None or a.ty[0] == 'str':
                if n[1] == 0:
                    self.refine(a, '')
                elif n[0] == n[1]:
                    self.subst[key] = n[0]
                    # the first n bytes of a string of n bytes are the string
                    self.refine(Term('slice', (a, 0, n[0]), T_STR), Str((a,)))
                    self.refine(Term('slice', (a, n[0], None), T_STR), '')

    def int_eq(self, a, b):
        d = self.norm(add(a, b, -1))
        lo, hi = self.range_of(d)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        key, sign, off = self.canon(d)
        val = -off * sign
        if self.facts.get(('ne', key, val)):
            return False
        v = [True, False][self.pick(2, key)]
        self.path.append((f'{show(a)} == {show(b)}', v))
        if v:
            self.bounds[key] = (val, val)
            self.len_refine(key, (val, val))
        else:
            self.facts[('ne', key, val)] = True
            o = self.bounds.get(key) or self.type_range(key)
            if o[0] == val:
                self.bounds[key] = (val + 1, o[1])
            elif o[1] == val:
                self.bounds[key] = (o[0], val - 1)
            if key in self.bounds:
                self.len_refine(key, self.bounds[key])
        return v

    # -- strings --
    def sstr(self, v):
        """Value as template."""
        v = deref(v)
        if isinstance(v, Str):
            return self.norm(v)
        if isinstance(v, Chr):
            return Str(v.c)
        if isinstance(v, Term):
            v = self.norm(v)
            return v if isinstance(v, Str) else Str((v,))
        if isinstance(v, str):
            return Str(v)
        raise Unsupported(f'not a string: {show(v)}')

    def alen(self, a):
        n = atom_len(a)
        if n is not None:
            return n
        if a.op in ('alower', 'aupper'):
            return self.alen(a.args[0])
        if a.op == 'slice' and a.args[2] is None:
            return add(self.alen(a.args[0]), a.args[1], -1) if isinstance(a.args[0], Term) else Term('len', (a,), T_USIZE)
        if a.op == 'lastch':
            return 1
        t = Term('len', (a,), T_USIZE)
        if t in self.subst:
            return self.subst[t]
        b = self.bounds.get(t)
        if b is not None and b[0] == b[1]:
            return b[0]
        return t

    def str_len(self, s):
        s = self.norm(s)
        n = 0
        for p in s.parts:
            n = add(n, len(p.encode('utf8', 'surrogateescape')) if isinstance(p, str) else self.alen(p))
        return n

    def split_at(self, s, n, decide=True):
        """(left, right) at byte offset n, or None if out of range."""
        s = self.norm(s)
        n = self.norm(n)
        total = self.str_len(s)
        if not isinstance(n, int):
            k = add(total, n, -1)
            if isinstance(k, int):
                if k < 0:
                    return None
                r = self.split_right(s, k)
                if r is not None:
                    return r
        left, right = [], list(s.parts)
        while True:
            if isinstance(n, int) and n == 0:
                return Str(merge(left)), Str(merge(right))
            if not right:
                if isinstance(n, int):
                    return None
                raise Unsupported('cannot place a string offset')
            p = right[0]
            if isinstance(p, str):
                if isinstance(n, int):
                    if n >= len(p):
                        n -= len(p)
                        left.append(p)
                        right.pop(0)
                        continue
                    return Str(merge(left + [p[:n]])), Str(merge([p[n:]] + right[1:]))
                n = add(n, len(p), -1)
                left.append(p)
                right.pop(0)
                continue
            L = self.alen(p)
            if isinstance(n, int):
                if isinstance(L, int):
                    if n >= L:
                        n -= L
                        left.append(right.pop(0))
                        continue
                    return Str(merge(left + [mk_slice(p, 0, n)])), Str(merge([mk_slice(p, n, None)] + right[1:]))
                lo, hi = self.range_of(L)
                if lo >= n or (decide and self.le(n, L)):
                    return self.split_at_sure(left, p, n, right[1:])
                if not decide and not hi < n:
                    return None
                # the atom is shorter than the offset
                if len(right) == 1:
                    return None
                if not decide:
                    return None
                lo, hi = self.range_of(L)
                lo, hi = max(lo, 0), min(hi, n - 1)
                v = lo
                while v < hi and not self.int_eq(L, v):
                    v += 1
                n -= v
                if v:
                    left.append(right.pop(0))
                else:
                    right.pop(0)
                right = [x for q in right for x in (self.norm(Str((q,))).parts if not isinstance(q, str) else (q,))]
                continue
            c, ts = lin(n)
            cl, tl = lin(L)
            if all(ts.get(t, 0) >= k for t, k in tl.items()):
                n = add(n, L, -1)
                left.append(right.pop(0))
                continue
            raise Unsupported('cannot place a string offset')

    def split_at_sure(self, left, p, n, rest):
        # n <= len(p); the decision may have changed what is known about p
        q = self.norm(p)
        if isinstance(q, Str):
            r = self.split_at(q, n)
            return Str(merge(left + list(r[0].parts))), Str(merge(list(r[1].parts) + rest))
        return Str(merge(left + [mk_slice(p, 0, n)])), Str(merge([mk_slice(p, n, None)] + rest))

    def split_right(self, s, k):
        parts = list(s.parts)
        right = []
        while True:
            if k == 0:
                return Str(merge(parts)), Str(merge(right))
            if not parts:
                return None
            p = parts[-1]
            if isinstance(p, str):
                if k >= len(p):
                    k -= len(p)
                    right.insert(0, parts.pop())
                    continue
                return Str(merge(parts[:-1] + [p[:-k]])), Str(merge([p[-k:]] + right))
            L = self.alen(p)
            if isinstance(L, int):
                if k >= L:
                    k -= L
                    right.insert(0, parts.pop())
                    continue
                return Str(merge(parts[:-1] + [mk_slice(p, 0, L - k)])), Str(merge([mk_slice(p, L - k, None)] + right))
            return None

    def boundary(self, s, n):
        """Is the byte offset n on a character boundary? (only asked inside atoms that may be non-ASCII)"""
        s = self.norm(s)
        if not isinstance(n, int):
            return True
        pos = n
        for p in s.parts:
            if pos == 0:
                return True
            if isinstance(p, str):
                if pos < len(p):
                    return True
                pos -= len(p)
                continue
            L = self.alen(p)
            if isinstance(L, int):
                if pos >= L:
                    pos -= L
                    continue
            if atom_charset(p) is not None or self.facts.get(('ascii', p)):
                return True
            lo, hi = self.range_of(L)
            if not lo > pos and not self.lt(pos, L):
                return True
            b = p
            while b.op in ('alower', 'aupper'):
                b = b.args[0]
            return self.choose(('boundary', b, pos), [True, False])
        return True

    def contains_char(self, a, p):
        """Does atom a contain the literal p? True/False/None (unknown)"""
        cs = atom_charset(a)
        if cs is not None and any(c not in cs for c in p):
            return False
        b = a
        while True:
            f = self.facts.get(('contains', b, p))
            if f is False:
                return False
            if f is True and b is a:
                return True
            # 'contains' facts about single characters of p
            for c in p:
                if self.facts.get(('contains', b, c)) is False:
                    return False
            for k, v in self.facts.items():
                if v is False and isinstance(k, tuple) and len(k) == 3 and k[0] == 'contains' and isinstance(k[1], Str) and b in k[1].parts and isinstance(k[2], str) and k[2] in p:
                    return False
            if b.op in ('rafter', 'before') and len(b.args) > 1 and isinstance(b.args[1], str) and b.args[1] in p:
                return False
            if b.op == 'basename' and ('/' in p or '\\' in p):
                return False
            if b.op in ('lower', 'alower', 'upper', 'aupper') and not any(c.isalpha() for c in p):
                b = b.args[0]
                continue
            if b.op in SUB_OPS and b.args and isinstance(b.args[0], Term):
                b = b.args[0]
                continue
            return None

    def decide_contains(self, a, p):
        r = self.contains_char(a, p)
        if r is not None:
            return r
        return self.choose(('contains', a, p), [True, False])

    def rfind(self, s, p):
        """Split at the last occurrence of p: (before, after) or None."""
        s = self.norm(s)
        parts = list(s.parts)
        right = []
        while parts:
            q = parts[-1]
            if isinstance(q, str):
                i = q.rfind(p)
                if i >= 0:
                    return Str(merge(parts[:-1] + [q[:i]])), Str(merge([q[i + len(p):]] + right))
                right.insert(0, parts.pop())
                continue
            if self.decide_contains(q, p):
                q2 = self.norm(q)
                if isinstance(q2, Str):
                    parts[-1:] = list(q2.parts)
                    continue
                b, a = Term('rbefore', (q, p), T_STR), Term('rafter', (q, p), T_STR)
                self.refine(q, Str((b, p, a)))
                return self.norm(Str(merge(parts[:-1] + [b]))), self.norm(Str(merge([a] + right)))
            right.insert(0, parts.pop())
        return None

    def find(self, s, p):
        s = self.norm(s)
        parts = list(s.parts)
        left = []
        while parts:
            q = parts[0]
            if isinstance(q, str):
                i = q.find(p)
                if i >= 0:
                    return Str(merge(left + [q[:i]])), Str(merge([q[i + len(p):]] + parts[1:]))
                left.append(parts.pop(0))
                continue
            if self.decide_contains(q, p):
                q2 = self.norm(q)
                if isinstance(q2, Str):
                    parts[:1] = list(q2.parts)
                    continue
                b, a = Term('before', (q, p), T_STR), Term('after', (q, p), T_STR)
                self.refine(q, Str((b, p, a)))
                return self.norm(Str(merge(left + [b]))), self.norm(Str(merge([a] + parts[1:])))
            left.append(parts.pop(0))
        return None

    def ends_with(self, s, p):
        """Strip the literal suffix p: the rest, or None."""
        s = self.norm(s)
        parts = list(s.parts)
        while True:
            if p == '':
                return Str(merge(parts))
            if not parts:
                return None
            q = parts[-1]
            if isinstance(q, str):
                n = min(len(q), len(p))
                if q[-n:] != p[-n:]:
                    return None
                p = p[:-n]
                parts.pop()
                if len(q) > n:
                    parts.append(q[:-n])
                continue
            cs = atom_charset(q)
            if cs is not None and p[-1] not in cs:
                n0 = self.alen(q)
                if isinstance(n0, int) and n0 > 0:
                    return None
            L = self.alen(q)
            if isinstance(L, int) and L < len(p):
                lit = self.atom_is(q, p[-L:])
                if not lit:
                    return None
                parts.pop()
                p = p[:-L]
                continue
            if cs is not None and any(c not in cs for c in p) and len(parts) == 1:
                return None
            if len(parts) > 1 or True:
                # an atom shorter than the suffix could share it with the part before it
                if any(self.contains_char(q, c) is False for c in p):
                    # only a full match of the tail after the excluded character is possible
                    idx = max(i for i, c in enumerate(p) if self.contains_char(q, c) is False)
                    tail = p[idx + 1:]
                    if not self.atom_is(q, tail):
                        return None
                    parts.pop()
                    p = p[:idx + 1]
                    continue
            for f, v in list(self.facts.items()):
                if isinstance(f, tuple) and f[0] == 'ends' and v is False and isinstance(f[2], str):
                    if f[1] == q and p.endswith(f[2]):
                        return None
                    if isinstance(f[1], Str) and len(f[1].parts) > 1 and isinstance(f[1].parts[-1], str) and f[1].parts[-2] == q:
                        l = f[1].parts[-1]
                        if f[2].endswith(l) and p.endswith(f[2][:-len(l)]):
                            return None
            if self.choose(('ends', q, p), [True, False]):
                q2 = self.norm(q)
                if isinstance(q2, Str):
                    parts[-1:] = list(q2.parts)
                    continue
                x = self.case_base(q, p)
                if x is not None:
                    a, b = Term('postof', (x, len(p)), T_STR), Term('post', (x, 'end', len(p)), T_STR)
                    self.refine(x, Str((a, b)))
                    self.refine(Term(q.op, (b,), T_STR), p)
                    parts[-1:] = list(self.sstr(q).parts)
                    continue
                st = cut_end(q, p, True) or Term('stem', (q, p), T_STR)
                self.refine(q, Str((st, p)))
                return self.norm(Str(merge(parts[:-1] + [st])))
            return None

    @staticmethod
    def case_base(q, p):
        """The atom under a case change whose result can only show the ASCII text p for text of the same length."""
        if q.op not in ('alower', 'aupper', 'lower', 'upper') or not p.isascii() or not isinstance(q.args[0], Term):
            return None
        if q.op == 'lower' and 'k' in p or q.op == 'upper' and any(c in p for c in 'IS'):
            return None
        if q.op == 'upper' and any(x in p for x in ('FF', 'FI', 'FL', 'ST', 'SS', 'J', 'H', 'T', 'W', 'Y', 'A', 'N')):
            return None
        return q.args[0]

    def starts_with(self, s, p):
        s = self.norm(s)
        parts = list(s.parts)
        while True:
            if p == '':
                return Str(merge(parts))
            if not parts:
                return None
            q = parts[0]
            if isinstance(q, str):
                n = min(len(q), len(p))
                if q[:n] != p[:n]:
                    return None
                p = p[n:]
                parts.pop(0)
                if len(q) > n:
                    parts.insert(0, q[n:])
                continue
            cs = atom_charset(q)
            L = self.alen(q)
            if cs is not None and p[0] not in cs and isinstance(L, int) and L > 0:
                return None
            if any(self.contains_char(q, c) is False for c in p):
                idx = min(i for i, c in enumerate(p) if self.contains_char(q, c) is False)
                if not self.atom_is(q, p[:idx]):
                    return None
                parts.pop(0)
                p = p[idx:]
                continue
            # prefixes decided before that exclude this one
            for f, v in list(self.facts.items()):
                if isinstance(f, tuple) and f[0] == 'starts' and v is False and isinstance(f[2], str):
                    if f[1] == q and p.startswith(f[2]):
                        return None
                    if isinstance(f[1], Str) and len(f[1].parts) > 1 and isinstance(f[1].parts[0], str) and f[1].parts[1] == q:
                        l = f[1].parts[0]
                        if f[2].startswith(l) and p.startswith(f[2][len(l):]):
                            return None
            if self.choose(('starts', q, p), [True, False]):
                q2 = self.norm(q)
                if isinstance(q2, Str):
                    parts[:1] = list(q2.parts)
                    continue
                x = self.case_base(q, p)
                if x is not None:
                    a, b = Term('pre', (x, len(p)), T_STR), Term('preof', (x, len(p)), T_STR)
                    self.refine(x, Str((a, b)))
                    self.refine(Term(q.op, (a,), T_STR), p)
                    parts[:1] = list(self.sstr(q).parts)
                    continue
                st = cut_end(q, p, False) or Term('rest', (q, p), T_STR)
                self.refine(q, Str((p, st)))
                return self.norm(Str(merge([st] + parts[1:])))
            return None

    def atom_is(self, a, lit):
        """atom == literal?"""
        return self.str_eq(Str((a,)), Str(lit))

    def eq_class(self, s):
        """Strings known to be equal to `s`."""
        out, todo = {s}, [s]
        while todo:
            x = todo.pop()
            for f, v in self.facts.items():
                if v is True and isinstance(f, tuple) and len(f) == 3 and f[0] == 'streq' and isinstance(f[2], Str):
                    for p, q in ((f[1], f[2]), (f[2], f[1])):
                        if p == x and q not in out:
                            out.add(q)
                            todo.append(q)
        return out

    def str_eq(self, a, b):
        a, b = list(self.norm(a).parts), list(self.norm(b).parts)
        # common ends
        while a and b:
            x, y = a[0], b[0]
            if x == y:
                a.pop(0), b.pop(0)
                continue
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                a[0], b[0] = x[n:], y[n:]
                if not a[0]:
                    a.pop(0)
                if not b[0]:
                    b.pop(0)
                continue
            break
        while a and b:
            x, y = a[-1], b[-1]
            if x == y:
                a.pop(), b.pop()
                continue
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                a[-1], b[-1] = x[:-n], y[:-n]
                if not a[-1]:
                    a.pop()
                if not b[-1]:
                    b.pop()
                continue
            break
        if not a and not b:
            return True
        if not b:
            a, b = b, a
        if not a:
            # everything in b must be empty
            if any(isinstance(p, str) for p in b):
                return False
            for p in b:
                L = self.alen(p)
                if not self.int_eq(L, 0):
                    return False
            return True
        if len(b) == 1 and isinstance(b[0], str):
            a, b = b, a
        if len(a) == 1 and isinstance(a[0], str):
            lit = a[0]
            if len(b) == 1:
                q = b[0]
                cs = atom_charset(q)
                L = self.alen(q)
                if cs is not None and any(c not in cs for c in lit):
                    return False
                if isinstance(L, int) and L != len(lit):
                    return False
                lo, hi = self.range_of(L)
                if not lo <= len(lit) <= hi:
                    return False
                for c in lit:
                    if self.contains_char(q, c) is False:
                        return False
                for f, v in self.facts.items():
                    if isinstance(f, tuple) and len(f) == 3 and f[1] == q and v is False:
                        if f[0] == 'ends' and lit.endswith(f[2]) or f[0] == 'starts' and lit.startswith(f[2]) or f[0] == 'contains' and f[2] in lit:
                            return False
                if self.choose(('streq', q, lit), [True, False]):
                    self.refine(q, lit)
                    return True
                return False
            # split the literal along the structure: decide by a joint atom
            rest = Str(merge(b))
            return self.choose(('streq', rest, lit), [True, False])
        # disjoint character sets in front
        x, y = sorted([Str(tuple(a)), Str(tuple(b))], key=repr)
        if x in self.eq_class(y):
            return True
        for f, v in self.facts.items():
            if v is True and isinstance(f, tuple) and len(f) == 3 and f[0] == 'streq' and isinstance(f[2], Str):
                for op in ('lower', 'upper', 'alower', 'aupper'):
                    if {case_str(op, f[1]), case_str(op, f[2])} == {x, y}:
                        return True
        la, lb = self.str_len(x), self.str_len(y)
        if isinstance(la, int) and isinstance(lb, int) and la != lb:
            return False
        return self.choose(('streq', x, y), [True, False])


def explore(run, limit=20000, cls=Ctx):
    """Runs `run(ctx)` for every consistent combination of decisions; yields (ctx, result)."""
    stack = [()]
    n = 0
    while stack:
        script = stack.pop()
        ctx = cls(script)
        feasible = True
        try:
            res = run(ctx)
        except Infeasible:
            feasible = False
            res = None
        for j in range(len(script), len(ctx.log)):
            c, opts = ctx.log[j]
            for alt in range(c + 1, opts):
                stack.append(tuple(x[0] for x in ctx.log[:j]) + (alt,))
        if feasible:
            n += 1
            yield ctx, res
        if n > limit:
            raise Unsupported(f'more than {limit} partitions')
