"""Strings, byte strings, characters and paths."""
from .dom import *
from .std import *
from .std import m, fn
from . import std
from .fmt import display

CH_PREDS = {
    'is_ascii_hexdigit': lambda c: c in '0123456789abcdefABCDEF',
    'is_ascii_digit': lambda c: c in '0123456789',
    'is_ascii_alphanumeric': lambda c: c.isascii() and c.isalnum(),
    'is_ascii_alphabetic': lambda c: c.isascii() and c.isalpha(),
    'is_ascii_uppercase': lambda c: 'A' <= c <= 'Z',
    'is_ascii_lowercase': lambda c: 'a' <= c <= 'z',
    'is_ascii_punctuation': lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != ' ',
    'is_ascii_whitespace': lambda c: c in ' \t\n\r\x0c',
    'is_ascii_graphic': lambda c: '!' <= c <= '~',
    'is_ascii_control': lambda c: c < ' ' or c == '\x7f',
    'is_ascii': lambda c: c.isascii(),
    'is_control': lambda c: c < ' ' or '\x7f' <= c <= '\x9f',
    'is_whitespace': lambda c: c.isspace() and not '\x1c' <= c <= '\x1f',
    'is_alphanumeric': lambda c: c.isalnum(),
    'is_alphabetic': lambda c: c.isalpha(),
    'is_numeric': lambda c: c.isnumeric(),
    'is_uppercase': lambda c: c.isupper(),
    'is_lowercase': lambda c: c.islower(),
}
# one representative per class of characters that the predicates above can tell apart
REPS = [chr(i) for i in range(128)] + ['\x85', 'é', 'É', '\u2028', '漢', '٣']
BREPS = list(range(256))
WS = ''.join(c for c in REPS if c.isspace() and not '\x1c' <= c <= '\x1f')


def pat_set(it, f, byte=False):
    """The characters accepted by a character predicate, as a sorted string of representatives."""
    f = deref(f)
    if isinstance(f, Chr):
        return f.c
    if isinstance(f, Vec):
        return ''.join(sorted(set(c.c for c in map(deref, f.items))))
    if isinstance(f, str):
        return f
    cache = it.__dict__.setdefault('_predcache', {})
    key = (id(f.node) if isinstance(f, Closure) else f, byte)
    if key in cache and not isinstance(f, Closure):
        return cache[key]
    out = []
    for c in (BREPS if byte else REPS):
        r = it.call_value(f, [c if byte else Chr(c)])
        r = deref(r)
        if r is not True and r is not False:
            r = it.ctx.truth(r)
        if r:
            out.append(chr(c) if byte else c)
    cache[key] = ''.join(out)
    return cache[key]


def complement(s, byte=False):
    return ''.join(c for c in (map(chr, BREPS) if byte else REPS) if c not in s)


def in_set(c, s):
    """Is the literal character in the predicate's set (by representative)?"""
    if c in s:
        return True
    if c in REPS or c.isascii():
        return False
    for r in REPS[128:]:
        if all(p(c) == p(r) for p in CH_PREDS.values()):
            return r in s
    return False


def part_all(it, p, s, byte=False):
    """Do all characters of a piece lie in the set?"""
    ctx = it.ctx
    if isinstance(p, str):
        return all(in_set(c, s) for c in p)
    full = complement('', byte)
    if s == full:
        return True
    from .dom import atom_charset
    cs = atom_charset(p)
    if cs is not None and all(c in s for c in cs):
        return True
    comp = complement(s, byte)
    b = p
    if len(comp) == 1:
        return not ctx.decide_contains(p, comp)
    key = ('all', p, s)
    f = ctx.known(key)
    if f is not None:
        return f
    # implied by what is known
    while isinstance(b, Term):
        for k, v in ctx.facts.items():
            if isinstance(k, tuple) and len(k) == 3 and k[0] == 'all' and v is True and (k[1] == b or isinstance(k[1], Str) and b in k[1].parts) and all(c in s for c in k[2]):
                return True
        if b.op in SUB_OPS and b.args:
            b = b.args[0]
        else:
            break
    if cs is not None and not any(c in s for c in cs):
        # only the empty string qualifies
        return ctx.int_eq(ctx.alen(p), 0)
    for k, v in list(ctx.facts.items()):
        if isinstance(k, tuple) and len(k) == 3 and k[1] == p:
            if k[0] == 'all' and v is False and all(c in k[2] for c in s):
                return False
            if k[0] == 'contains' and v is True and any(not in_set(c, s) for c in k[2]):
                return False
    return ctx.choose(key, [True, False])


def str_all(it, s, cs, byte=False):
    s = it.ctx.sstr(s)
    i = 0
    for p in s.parts:
        if not part_all(it, p, cs, byte):
            return False
    return True


def str_any(it, s, cs, byte=False):
    return not str_all(it, s, complement(cs, byte), byte)


def find_any(it, s, cs, right=False):
    """Split at the first (last) character of a set: (before, char, after) or None."""
    ctx = it.ctx
    if len(cs) == 1:
        r = (ctx.rfind if right else ctx.find)(s, cs)
        return (r[0], cs, r[1]) if r else None
    s = ctx.sstr(s)
    parts = list(s.parts)
    done = []
    comp = complement(cs)
    while parts:
        q = parts[-1] if right else parts[0]
        if isinstance(q, str):
            idx = [i for i, c in enumerate(q) if in_set(c, cs)]
            if idx:
                i = idx[-1] if right else idx[0]
                if right:
                    return S(*parts[:-1], q[:i]), q[i], S(q[i + 1:], *done)
                return S(*done, q[:i]), q[i], S(q[i + 1:], *parts[1:])
        elif not part_all(it, q, comp):
            q2 = ctx.norm(q)
            if isinstance(q2, Str):
                if right:
                    parts[-1:] = list(q2.parts)
                else:
                    parts[:1] = list(q2.parts)
                continue
            nm = ('rbeforeset', 'ratset', 'rafterset') if right else ('beforeset', 'atset', 'afterset')
            b, ch, a = (Term(n, (q, cs), T_STR) for n in nm)
            ctx.refine(q, Str((b, ch, a)))
            ctx.assume(('all', a if right else b, comp), True)
            if right:
                return S(*parts[:-1], b), ch, S(a, *done)
            return S(*done, b), ch, S(a, *parts[1:])
        if right:
            done.insert(0, parts.pop())
        else:
            done.append(parts.pop(0))
    return None


def find_pat(it, s, pat, right=False):
    """-> (before, matched Str, after) or None"""
    pat = deref(pat)
    if isinstance(pat, (Chr, Closure, FnVal, Vec)):
        return find_any(it, s, pat_set(it, pat), right)
    p = it.ctx.sstr(pat)
    l = p.lit()
    if l is None:
        s = it.ctx.sstr(s)
        # a pattern that appears literally in the template
        n = len(p.parts)
        for i in (range(len(s.parts) - n, -1, -1) if right else range(len(s.parts) - n + 1)):
            if s.parts[i:i + n] == p.parts:
                return Str(s.parts[:i]), p, Str(s.parts[i + n:])
        if it.ctx.choose(('containsterm', s, p), [True, False]):
            fs = it.freeze(s)
            return (Str((Term('before', (fs, it.freeze(p)), T_STR),)), p, Str((Term('after', (fs, it.freeze(p)), T_STR),)))
        return None
    r = (it.ctx.rfind if right else it.ctx.find)(s, l)
    return (r[0], l, r[1]) if r else None


def ss(c):
    return c.it.ctx.sstr(pathstr(c.it, c.v))


def opt(x):
    return none() if x is None else some(x)


@m('str', 'len')
def _(c):
    return c.it.ctx.str_len(ss(c))


@m('str', 'is_empty')
def _(c):
    s = ss(c)
    for p in s.parts:
        if isinstance(p, str):
            return False
    return all(c.it.ctx.int_eq(c.it.ctx.alen(p), 0) for p in s.parts)


@m('str', 'as_str', 'as_bytes', 'to_string', 'to_owned', 'into_bytes', 'into_boxed_str', 'as_ref', 'borrow', 'clone', 'as_path', 'to_path_buf', 'into_os_string',
   'as_os_str', 'to_vec', 'into_owned', 'into_string', 'as_slice', 'as_encoded_bytes', 'into_boxed_path', 'display', 'to_string_lossy', 'as_mut_str', 'deref',
   'into_vec', 'as_mut', 'borrow_mut', 'freeze', 'to_bytes', 'as_mut_slice', 'from_utf8_lossy')
def _(c):
    return ss(c)


@m('str', 'to_str')
def _(c):
    return some(ss(c))


@m('str', 'push_str', 'put_slice', 'extend_from_slice', 'push_byte')
def _(c):
    c.set(S(ss(c), c.it.ctx.sstr(c.a(0))))
    return UNIT


@m('str', 'write_str', 'write_char')
def _(c):
    c.set(S(ss(c), c.it.ctx.sstr(c.a(0))))
    return ok()


@m('str', 'extend', 'append')
def _(c):
    s = ss(c)
    a = c.a(0)
    if isinstance(a, (Str, Term)) and (isinstance(a, Str) or a.ty in (T_STR, Ty('Bytes'), None)):
        s = S(s, c.it.ctx.sstr(a))
    else:
        for x in iterate(c.it, a):
            s = S(s, display(c.it, x))
    c.set(s)
    return UNIT


@m('str', 'push')
def _(c):
    it = c.it
    a = c.a(0)
    if isinstance(a, Chr) or (isinstance(a, Term) and a.ty == T_CHAR):
        c.set(S(ss(c), a if isinstance(a, Chr) else Str((a,))))
    elif isinstance(a, int):
        c.set(S(ss(c), chr(a)))
    else:
        c.set(path_join(it, ss(c), a))
    return UNIT


@m('str', 'join')
def _(c):
    return path_join(c.it, ss(c), c.args[0])


@m('str', 'clear')
def _(c):
    c.set(Str(''))
    return UNIT


@m('str', 'insert', 'insert_str')
def _(c):
    r = c.it.ctx.split_at(ss(c), c.a(0))
    if r is None:
        raise RustPanic('insert out of range')
    c.set(S(r[0], c.it.ctx.sstr(c.a(1)), r[1]))
    return UNIT


@m('str', 'truncate')
def _(c):
    it = c.it
    s = ss(c)
    n = c.a(0)
    r = it.ctx.split_at(s, n)
    if r is not None:
        if not it.ctx.boundary(s, n):
            raise RustPanic('truncate inside a character')
        c.set(it.ctx.norm(r[0]))
    return UNIT


@m('str', 'pop')
def _(c):
    it = c.it
    s = ss(c)
    if not s.parts:
        if c.targs == 'path':
            return False
        return none()
    last = s.parts[-1]
    if isinstance(last, str):
        c.set(S(*s.parts[:-1], last[:-1]))
        return some(Chr(last[-1]))
    if it.ctx.int_eq(it.ctx.alen(last), 0):
        c.v = Str(s.parts[:-1])
        return BUILTIN[('str', 'pop')](c)
    cs = atom_charset(last)
    L = it.ctx.alen(last)
    if cs is not None and isinstance(L, int):
        c.set(S(*s.parts[:-1], mk_slice(last, 0, L - 1)))
        return some(Term('lastch', (last,), T_CHAR))
    c.set(S(*s.parts[:-1], Term('init', (last,), T_STR)))
    return some(Term('lastch', (last,), T_CHAR))


@m('str', 'remove')
def _(c):
    s = ss(c)
    r = c.it.ctx.split_at(s, c.a(0))
    if r is None:
        raise RustPanic('remove out of range')
    l = c.it.ctx.norm(r[1])
    if l.parts and isinstance(l.parts[0], str):
        c.set(S(r[0], l.parts[0][1:], *l.parts[1:]))
        return Chr(l.parts[0][0])
    raise Unsupported('remove from an atom')


@m('str', 'to_lowercase')
def _(c):
    return case_str('lower', ss(c))


@m('str', 'to_uppercase')
def _(c):
    return case_str('upper', ss(c))


@m('str', 'to_ascii_lowercase')
def _(c):
    return case_str('alower', ss(c))


@m('str', 'to_ascii_uppercase')
def _(c):
    return case_str('aupper', ss(c))


@m('str', 'make_ascii_lowercase')
def _(c):
    c.set(case_str('alower', ss(c)))
    return UNIT


@m('str', 'make_ascii_uppercase')
def _(c):
    c.set(case_str('aupper', ss(c)))
    return UNIT


@m('str', 'eq_ignore_ascii_case')
def _(c):
    return c.it.ctx.str_eq(case_str('alower', ss(c)), case_str('alower', c.it.ctx.sstr(c.a(0))))


@m('str', 'is_ascii')
def _(c):
    return str_all(c.it, ss(c), ''.join(map(chr, range(128))))


def is_path(c):
    return isinstance(c.v, Term) and c.v.ty is not None and c.v.ty[0] == 'Path'


@m('str', 'starts_with')
def _(c):
    it, s, p = c.it, ss(c), c.a(0)
    if isinstance(p, (Chr, Closure, FnVal, Vec)):
        return first_in(it, s, pat_set(it, p)) is not None
    p = it.ctx.sstr(pathstr(it, p))
    l = p.lit()
    if l is not None:
        return it.ctx.starts_with(s, l) is not None
    r = strip_common(s, p, 0)
    if r is None or not r[1].parts:
        return r is not None
    if r[1].lit() is not None:
        return it.ctx.starts_with(r[0], r[1].lit()) is not None
    return it.ctx.choose(('startsterm', *r), [True, False])


def strip_common(s, p, side):
    """s and p without their common prefix (side 0) or suffix (side -1), None if p cannot be a prefix (suffix)."""
    a, b = list(s.parts), list(p.parts)
    while a and b:
        x, y = a[side], b[side]
        if x == y:
            a.pop(side), b.pop(side)
        elif isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if (x[:n] != y[:n]) if side == 0 else (x[-n:] != y[-n:]):
                return None
            for l, z in ((a, x), (b, y)):
                l[side] = z[n:] if side == 0 else z[:-n]
                if not l[side]:
                    l.pop(side)
        else:
            break
    if b and not a and any(isinstance(y, str) for y in b):
        return None
    return S(*a), S(*b)


def first_in(it, s, cs, right=False):
    """Rest of the string without its first (last) character if that is in the set, else None."""
    if len(cs) <= 3:
        for x in sorted(cs):
            r = (it.ctx.ends_with if right else it.ctx.starts_with)(s, x)
            if r is not None:
                return r
        return None
    s = it.ctx.sstr(s)
    if not s.parts:
        return None
    p = s.parts[-1 if right else 0]
    if isinstance(p, str):
        ch = p[-1 if right else 0]
        if not in_set(ch, cs):
            return None
        return S(*s.parts[:-1], p[:-1]) if right else S(p[1:], *s.parts[1:])
    if it.ctx.choose(('lastin' if right else 'firstin', p, cs), [True, False]):
        q = drop_char(p, right, all(x.isascii() for x in cs))
        return S(*s.parts[:-1], q) if right else S(q, *s.parts[1:])
    return None


@m('str', 'ends_with')
def _(c):
    it, s, p = c.it, ss(c), c.a(0)
    if isinstance(p, (Chr, Closure, FnVal, Vec)):
        return first_in(it, s, pat_set(it, p), True) is not None
    p = it.ctx.sstr(pathstr(it, p))
    l = p.lit()
    if l is not None:
        return it.ctx.ends_with(s, l) is not None
    r = strip_common(s, p, -1)
    if r is None or not r[1].parts:
        return r is not None
    if r[1].lit() is not None:
        return it.ctx.ends_with(r[0], r[1].lit()) is not None
    return it.ctx.choose(('endsterm', *r), [True, False])


@m('str', 'strip_prefix')
def _(c):
    it, s, p = c.it, ss(c), c.a(0)
    wrap = ok if is_path(c) else some
    if isinstance(p, (Chr, Closure, FnVal, Vec)):
        return opt(first_in(it, s, pat_set(it, p)))
    p = it.ctx.sstr(pathstr(it, p))
    l = p.lit()
    if l is not None:
        r = it.ctx.starts_with(s, l)
        return opt(r)
    if s.parts[:len(p.parts)] == p.parts:
        r = Str(s.parts[len(p.parts):])
        if is_path(c) and r.parts and isinstance(r.parts[0], str) and r.parts[0][0] == '/':
            r = S(r.parts[0][1:], *r.parts[1:])
        return wrap(r)
    if is_path(c):
        return it.force(Term('strip_prefix', (it.freeze(s), it.freeze(p)), Ty('Result', Ty('Path'), None)))
    return it.force(Term('strip_prefix', (it.freeze(s), it.freeze(p)), Ty('Option', T_STR)))


@m('str', 'strip_suffix')
def _(c):
    it, s, p = c.it, ss(c), c.a(0)
    if isinstance(p, (Chr, Closure, FnVal, Vec)):
        return opt(first_in(it, s, pat_set(it, p), True))
    p = it.ctx.sstr(p)
    if p.lit() is not None:
        return opt(it.ctx.ends_with(s, p.lit()))
    if s.parts[len(s.parts) - len(p.parts):] == p.parts:
        return some(Str(s.parts[:len(s.parts) - len(p.parts)]))
    return it.force(Term('strip_suffix', (it.freeze(s), it.freeze(p)), Ty('Option', T_STR)))


def trim_side(it, s, cs, right):
    s = it.ctx.sstr(s)
    parts = list(s.parts)
    while parts:
        p = parts[-1 if right else 0]
        if isinstance(p, str):
            q = p
            while q and in_set(q[-1 if right else 0], cs):
                q = q[:-1] if right else q[1:]
            if q:
                parts[-1 if right else 0] = q
                break
            parts.pop(-1 if right else 0)
            continue
        a = atom_charset(p)
        if a is not None and not any(x in cs for x in a):
            if isinstance(it.ctx.alen(p), int):
                break
        if any(it.ctx.contains_char(p, x) is not False for x in cs):
            nm = 'trim_end' if right else 'trim_start'
            if not (p.op == nm and p.args[1] == cs):
                q = Term(nm, (p, cs), T_STR)
                parts[-1 if right else 0] = q
        break
    return S(*parts)


@m('str', 'trim', 'trim_ascii')
def _(c):
    return trim_side(c.it, trim_side(c.it, ss(c), WS, False), WS, True)


@m('str', 'trim_start')
def _(c):
    return trim_side(c.it, ss(c), WS, False)


@m('str', 'trim_end')
def _(c):
    return trim_side(c.it, ss(c), WS, True)


def trim_pat(c, sides):
    it, p = c.it, c.a(0)
    s = ss(c)
    if isinstance(p, Str) and p.lit() is not None and len(p.lit()) == 1:
        p = Chr(p.lit())
    if isinstance(p, (Chr, Closure, FnVal, Vec)):
        cs = pat_set(it, p)
        for r in sides:
            s = trim_side(it, s, cs, r)
        return s
    l = it.ctx.sstr(p).lit()
    if l is None:
        raise Unsupported('trim of an unknown pattern')
    for r in sides:
        n = 0
        while True:
            t = (it.ctx.ends_with if r else it.ctx.starts_with)(s, l)
            if t is None:
                break
            s = t
            n += 1
            if n > 2:
                raise Infeasible()
    return s


@m('str', 'trim_matches')
def _(c):
    return trim_pat(c, (False, True))


@m('str', 'trim_start_matches')
def _(c):
    return trim_pat(c, (False,))


@m('str', 'trim_end_matches')
def _(c):
    return trim_pat(c, (True,))


@m('str', 'find')
def _(c):
    r = find_pat(c.it, ss(c), c.args[0])
    return opt(None if r is None else c.it.ctx.str_len(r[0]))


@m('str', 'rfind')
def _(c):
    r = find_pat(c.it, ss(c), c.args[0], True)
    return opt(None if r is None else c.it.ctx.str_len(r[0]))


@m('str', 'contains')
def _(c):
    it, p = c.it, c.a(0)
    if isinstance(p, (Chr, Closure, FnVal, Vec)):
        return str_any(it, ss(c), pat_set(it, p))
    if isinstance(p, int):
        return str_any(it, ss(c), chr(p))
    p = it.ctx.sstr(p)
    l = p.lit()
    s = ss(c)
    if l is not None:
        if any(isinstance(q, str) and l in q for q in s.parts):
            return True
        return any(not isinstance(q, str) and it.ctx.decide_contains(q, l) for q in s.parts)
    return find_pat(it, s, p) is not None


@m('str', 'split_once')
def _(c):
    r = find_pat(c.it, ss(c), c.args[0])
    return opt(None if r is None else Tup([r[0], r[2]]))


@m('str', 'rsplit_once')
def _(c):
    r = find_pat(c.it, ss(c), c.args[0], True)
    return opt(None if r is None else Tup([r[0], r[2]]))


SPLIT_BOUND = 3


def split_iter(it, s, pat, right=False, limit=None):
    n = 0
    k = 0
    while True:
        if limit is not None and n + 1 >= limit:
            yield s
            return
        before = len(it.ctx.log)
        r = find_pat(it, s, pat, right)
        if r is None:
            yield s
            return
        if len(it.ctx.log) != before:
            k += 1
            if k > SPLIT_BOUND:
                raise Infeasible()
        n += 1
        yield r[2] if right else r[0]
        s = r[0] if right else r[2]


@m('str', 'split')
def _(c):
    p = c.a(0)
    return Iter(split_iter(c.it, ss(c), p))


@m('str', 'rsplit')
def _(c):
    return Iter(split_iter(c.it, ss(c), c.a(0), True))


@m('str', 'splitn')
def _(c):
    return Iter(split_iter(c.it, ss(c), c.a(1), False, c.a(0)))


@m('str', 'rsplitn')
def _(c):
    return Iter(split_iter(c.it, ss(c), c.a(1), True, c.a(0)))


@m('str', 'split_terminator', 'split_inclusive')
def _(c):
    raise Unsupported('split variant')


@m('str', 'split_whitespace', 'split_ascii_whitespace')
def _(c):
    def g():
        for x in split_iter(c.it, ss(c), FnVal('ws', lambda a: deref(a[0]).c in WS)):
            if not all(not isinstance(p, str) and c.it.ctx.int_eq(c.it.ctx.alen(p), 0) for p in x.parts):
                yield x
    return Iter(g())


@m('str', 'lines')
def _(c):
    it = c.it

    def g():
        s = ss(c)
        for i in range(64):
            if not c.it.ctx.norm(s).parts:
                return
            before = len(it.ctx.log)
            r = it.ctx.find(s, '\n')
            if r is None:
                yield s
                return
            x = it.ctx.norm(r[0])
            if x.parts and isinstance(x.parts[-1], str) and x.parts[-1].endswith('\r'):
                x = S(*x.parts[:-1], x.parts[-1][:-1])
            yield x
            s = r[1]
            if i > SPLIT_BOUND and len(it.ctx.log) != before:
                raise Infeasible()
    return Iter(g())


@m('str', 'split_at')
def _(c):
    s, n = ss(c), c.a(0)
    r = c.it.ctx.split_at(s, n)
    if r is None:
        raise RustPanic('split_at out of range')
    if not c.it.ctx.boundary(s, n):
        raise RustPanic('split_at inside a character')
    return Tup([c.it.ctx.norm(r[0]), c.it.ctx.norm(r[1])])


@m('str', 'split_at_checked')
def _(c):
    s, n = ss(c), c.a(0)
    r = c.it.ctx.split_at(s, n)
    if r is None or not c.it.ctx.boundary(s, n):
        return none()
    return some(Tup([c.it.ctx.norm(r[0]), c.it.ctx.norm(r[1])]))


@m('str', 'split_off')
def _(c):
    s, n = ss(c), c.a(0)
    r = c.it.ctx.split_at(s, n)
    if r is None or not c.it.ctx.boundary(s, n):
        raise RustPanic('split_off')
    c.set(c.it.ctx.norm(r[0]))
    return c.it.ctx.norm(r[1])


@m('str', 'is_char_boundary')
def _(c):
    s, n = ss(c), c.a(0)
    r = c.it.ctx.split_at(s, n)
    return r is not None and c.it.ctx.boundary(s, n)


@m('str', 'get')
def _(c):
    a = c.a(0)
    if isinstance(a, Native) and a.kind == 'range':
        return opt(slice_range(c.it, c.v, a, must=False))
    r = c.it.ctx.split_at(ss(c), a)
    if r is None:
        return none()
    x = c.it.ctx.norm(r[1])
    if not x.parts:
        return none()
    if isinstance(x.parts[0], str):
        return some(ord(x.parts[0][0]))
    return some(Term('byteof', (c.it.freeze(ss(c)), c.it.freeze(a)), Ty('u8')))


@m('str', 'get_mut')
def _(c):
    raise Unsupported('get_mut on a string')


@m('str', 'first')
def _(c):
    it, s = c.it, ss(c)
    if not s.parts:
        return none()
    if isinstance(s.parts[0], str):
        return some(ord(s.parts[0][0]))
    if it.ctx.int_eq(it.ctx.str_len(s), 0):
        return none()
    return some(Term('byteof', (it.freeze(s), 0), Ty('u8')))


@m('str', 'repeat')
def _(c):
    n = c.a(0)
    if isinstance(n, int):
        return S(*[ss(c)] * n)
    return Str((Term('repeat', (c.it.freeze(ss(c)), c.it.freeze(n)), T_STR),))


@m('str', 'replacen')
def _(c):
    it = c.it
    s, pat, to = ss(c), it.ctx.sstr(c.a(0)), it.ctx.sstr(c.a(1))
    n = deref(c.a(2))
    if s.lit() is not None and pat.lit() is not None and to.lit() is not None and isinstance(n, int):
        return Str(s.lit().replace(pat.lit(), to.lit(), n))
    return Str((Term('replacen', (it.freeze(s), it.freeze(pat), it.freeze(to), it.freeze(n)), T_STR),))


@m('str', 'replace')
def _(c):
    it = c.it
    s, pat, to = ss(c), c.a(0), it.ctx.sstr(c.a(1))
    if isinstance(pat, (Chr, Closure, FnVal, Vec)):
        cs = pat_set(it, pat)
    else:
        p = it.ctx.sstr(pat).lit()
        if p is None or len(p) != 1:
            if s.lit() is not None and p is not None and to.lit() is not None:
                return Str(s.lit().replace(p, to.lit()))
            return Str((Term('replace', (it.freeze(s), it.freeze(it.ctx.sstr(pat)), it.freeze(to)), T_STR),))
        cs = p
    out = []
    for q in s.parts:
        if isinstance(q, str):
            for ch in q:
                out.append(to if in_set(ch, cs) else ch)
        elif all(it.ctx.contains_char(q, ch) is False for ch in cs):
            out.append(q)
        else:
            out.append(Term('replace', (q, cs, it.freeze(to)), T_STR))
    return S(*out)


@m('str', 'parse')
def _(c):
    t = c.targs[0] if c.targs and c.targs[0] is not None else None
    if t is None and c.expect is not None:
        t = c.expect.arg(0) if c.expect[0] in ('Result', 'OptOrRes') else None
    if t is None:
        return Term('parse', (c.it.freeze(ss(c)), '?'), Ty('Result', None, None))
    return parse(c.it, ss(c), t)


@m('str', 'cmp')
def _(c):
    return Enum('Ordering', {-1: 'Less', 0: 'Equal', 1: 'Greater'}[c.it.cmp(ss(c), c.it.ctx.sstr(c.a(0)))])


@m('str', 'matches')
def _(c):
    def g():
        s = ss(c)
        for i in range(SPLIT_BOUND + 1):
            r = find_pat(c.it, s, c.a(0))
            if r is None:
                return
            yield S(r[1])
            s = r[2]
        raise Infeasible()
    return Iter(g())


@m('str', 'reserve', 'shrink_to_fit')
def _(c):
    return UNIT


# ------------------------------------------------------------- characters, bytes
@m('str', 'chars')
def _(c):
    return Native('chars', s=ss(c), byte=False)


@m('str', 'bytes')
def _(c):
    return Native('chars', s=ss(c), byte=True)


@m('str', 'iter', 'into_iter', 'iter_mut')
def _(c):
    return Native('chars', s=ss(c), byte=True)


@m('str', 'char_indices')
def _(c):
    it = c.it

    def g():
        n = 0
        for x in char_iter(it, ss(c), False):
            yield Tup([n, x])
            n += 1
    return Iter(g())


def char_iter(it, s, byte):
    for p in it.ctx.sstr(s).parts:
        if isinstance(p, str):
            for ch in p:
                if byte and not ch.isascii():
                    yield from ch.encode()
                else:
                    yield ord(ch) if byte else Chr(ch)
            continue
        L = it.ctx.alen(p)
        if isinstance(L, int) and L <= 64:
            for i in range(L):
                yield Term('charat', (p, i), Ty('u8') if byte else T_CHAR)
            continue
        # a bounded number of characters
        n = it.ctx.choose(('chars', p), list(range(it.ctx.k + 1)))
        for i in range(n):
            yield Term('charat', (p, i), Ty('u8') if byte else T_CHAR)


@m('chars', 'all')
def _(c):
    v = c.v
    if any(not isinstance(p, str) for p in c.it.ctx.sstr(v.s).parts):
        return str_all(c.it, v.s, pat_set(c.it, c.args[0], v.byte), v.byte)
    return all(c.it.ctx.truth(c.it.call_value(c.args[0], [x])) for x in char_iter(c.it, v.s, v.byte))


@m('chars', 'any')
def _(c):
    v = c.v
    if any(not isinstance(p, str) for p in c.it.ctx.sstr(v.s).parts):
        return str_any(c.it, v.s, pat_set(c.it, c.args[0], v.byte), v.byte)
    return any(c.it.ctx.truth(c.it.call_value(c.args[0], [x])) for x in char_iter(c.it, v.s, v.byte))


@m('chars', 'contains')
def _(c):
    return str_any(c.it, c.v.s, pat_set(c.it, c.args[0]), c.v.byte)


@m('chars', 'position', 'find', 'rposition')
def _(c):
    r = find_any(c.it, c.v.s, pat_set(c.it, c.args[0], c.v.byte), c.name == 'rposition')
    if r is None:
        return none()
    if c.name == 'find':
        ch = r[1]
        return some((ord(ch) if c.v.byte else Chr(ch)) if isinstance(ch, str) else ch)
    return some(c.it.ctx.str_len(r[0]))


@m('chars', 'count', 'len')
def _(c):
    if c.v.byte or all(isinstance(p, str) or atom_charset(p) is not None for p in c.v.s.parts):
        return c.it.ctx.str_len(c.v.s)
    return Term('charcount', (c.it.freeze(c.v.s),), T_USIZE)


@m('chars', 'as_str')
def _(c):
    return c.v.s


@m('chars', 'next', 'next_back', 'last')
def _(c):
    it = c.it
    s = it.ctx.sstr(c.v.s)
    right = c.name != 'next'
    while s.parts:
        p = s.parts[-1 if right else 0]
        if isinstance(p, str):
            ch = p[-1 if right else 0]
            c.v.s = S(*s.parts[:-1], p[:-1]) if right else S(p[1:], *s.parts[1:])
            return some(ord(ch) if c.v.byte else Chr(ch))
        if it.ctx.int_eq(it.ctx.alen(p), 0):
            s = it.ctx.norm(s)
            if s.parts and s.parts[-1 if right else 0] == p:
                s = Str(s.parts[:-1] if right else s.parts[1:])
            continue
        q = Term('init' if right else 'tailch', (p,), T_STR)
        c.v.s = S(*s.parts[:-1], q) if right else S(q, *s.parts[1:])
        return some(Term('lastch' if right else 'firstch', (p,), Ty('u8') if c.v.byte else T_CHAR))
    return none()


@m('chars', 'collect')
def _(c):
    t = c.expect
    if c.targs and c.targs[0] is not None:
        t = c.targs[0]
    if t is None or t[0] == 'str':
        return c.v.s
    return Vec(list(char_iter(c.it, c.v.s, c.v.byte)))


@m('chars', 'filter')
def _(c):
    v = c.v
    cs = pat_set(c.it, c.args[0], v.byte)
    out = []
    for p in c.it.ctx.sstr(v.s).parts:
        if isinstance(p, str):
            out.append(''.join(x for x in p if in_set(x, cs)))
        elif part_all(c.it, p, cs, v.byte):
            out.append(p)
        else:
            out.append(Term('charfilter', (p, cs), T_STR))
    return Native('chars', s=S(*out), byte=v.byte)


@m('chars', 'cloned', 'copied', 'by_ref', 'into_iter', 'iter', 'clone')
def _(c):
    if c.name in ('by_ref',):
        return c.v
    return Native('chars', s=c.v.s, byte=c.v.byte)


@m('chars', 'rev')
def _(c):
    return Iter(reversed(list(char_iter(c.it, c.v.s, c.v.byte))))


@m('chars', 'map', 'enumerate', 'skip', 'take', 'zip', 'chain', 'flat_map', 'filter_map', 'fold', 'for_each', 'take_while', 'skip_while', 'peekable', 'nth', 'step_by', 'sum', 'max', 'min', 'try_fold')
def _(c):
    if c.name == 'map' and any(not isinstance(p, str) for p in c.it.ctx.sstr(c.v.s).parts):
        r = charmap(c)
        if r is not None:
            return r
    c.v = Iter(char_iter(c.it, c.v.s, c.v.byte))
    return BUILTIN[('iter', c.name)](c)


def charmap(c):
    """s.chars().map(f): recognise f extensionally (case change, replacement of some characters)."""
    if c.v.byte:
        return None
    out = {}
    for ch in REPS:
        r = deref(c.it.call_value(c.args[0], [Chr(ch)]))
        if not isinstance(r, Chr):
            return None
        out[ch] = r.c
    ch_ = {k: v for k, v in out.items() if k != v}
    s = c.it.ctx.sstr(c.v.s)
    if not ch_:
        return Native('chars', s=s, byte=False)
    if all(out[x] == (x.lower() if x.isascii() else x) for x in REPS):
        return Native('chars', s=case_str('alower', s), byte=False)
    if all(out[x] == (x.upper() if x.isascii() else x) for x in REPS):
        return Native('chars', s=case_str('aupper', s), byte=False)
    tos = set(ch_.values())
    if len(tos) == 1:
        cs = ''.join(sorted(ch_))
        to = tos.pop()
        parts = []
        for p in s.parts:
            if isinstance(p, str):
                parts.append(''.join(to if in_set(x, cs) else x for x in p))
            else:
                parts.append(Term('replace', (p, cs, Str(to)), T_STR))
        return Native('chars', s=S(*parts), byte=False)
    return None


for _name, _f in CH_PREDS.items():
    def _mk(name, f):
        def h(c):
            v = c.v
            if isinstance(v, Chr):
                return f(v.c)
            if isinstance(v, int):
                return f(chr(v)) if v < 128 or name == 'is_ascii' else False
            cs = ''.join(x for x in REPS if f(x))
            return c.it.ctx.choose(('chin', v, cs), [True, False])
        BUILTIN[('char', name)] = h
        if name.startswith('is_ascii'):
            BUILTIN[('int', name)] = h

        def g(it, args, targs, expect):
            c = Call()
            c.it, c.v = it, deref(args[0])
            return h(c)
        std.EXT_FN['char::' + name] = g
        std.EXT_FN['u8::' + name] = g
    _mk(_name, _f)


@m('char', 'is_digit')
def _(c):
    if isinstance(c.v, Chr):
        return c.v.c.lower() in '0123456789abcdefghijklmnopqrstuvwxyz'[:c.a(0)]
    return c.it.ctx.choose(('chdigit', c.v, c.a(0)), [True, False])


@m('char', 'to_ascii_lowercase', 'to_lowercase')
def _(c):
    return Chr(c.v.c.lower()) if isinstance(c.v, Chr) else Term('chlower', (c.v,), T_CHAR)


@m('char', 'to_ascii_uppercase', 'to_uppercase')
def _(c):
    return Chr(c.v.c.upper()) if isinstance(c.v, Chr) else Term('chupper', (c.v,), T_CHAR)


@m('char', 'eq_ignore_ascii_case')
def _(c):
    return c.it.eq(Chr(c.v.c.lower()), Chr(c.a(0).c.lower()))


@m('char', 'len_utf8')
def _(c):
    return len(c.v.c.encode()) if isinstance(c.v, Chr) else Term('len_utf8', (c.v,), T_USIZE)


@m('char', 'to_string')
def _(c):
    return S(c.v) if isinstance(c.v, Chr) else Str((c.v,))


# --------------------------------------------------------------------- paths
def last_component(it, s):
    """(parent, name) of a path template, or None if it has no components."""
    s = it.ctx.sstr(s)
    while s.parts and isinstance(s.parts[-1], str) and s.parts[-1].endswith('/'):
        s = S(*s.parts[:-1], s.parts[-1][:-1])
    if not s.parts:
        return None
    r = it.ctx.rfind(s, '/')
    if r is None:
        return Str(''), s
    return r


@m('str', 'parent')
def _(c):
    r = last_component(c.it, ss(c))
    if r is None:
        return none()
    return some(r[0])


@m('str', 'file_name')
def _(c):
    it = c.it
    r = last_component(it, ss(c))
    if r is None:
        return none()
    n = r[1]
    l = n.lit()
    if l is not None:
        if l == '..':
            return none()
        return some(n)
    if len(n.parts) == 1:
        a = n.parts[0]
        if atom_charset(a) is None:
            # the term may be empty, "." or ".."
            if not it.ctx.choose(('normal', a), [True, False]):
                return none()
    return some(n)


def ext_split(it, n):
    """(stem, extension) of a file name."""
    r = it.ctx.rfind(n, '.')
    if r is None:
        return n, None
    b = it.ctx.norm(r[0])
    if not b.parts or all(not isinstance(p, str) and it.ctx.int_eq(it.ctx.alen(p), 0) for p in b.parts):
        return n, None
    return r


@m('str', 'extension')
def _(c):
    r = BUILTIN[('str', 'file_name')](c)
    if r.variant == 'None':
        return r
    return opt(ext_split(c.it, r.fields[0])[1])


@m('str', 'file_stem')
def _(c):
    r = BUILTIN[('str', 'file_name')](c)
    if r.variant == 'None':
        return r
    return some(ext_split(c.it, r.fields[0])[0])


@m('str', 'with_extension')
def _(c):
    it = c.it
    s = ss(c)
    r = last_component(it, s)
    if r is None:
        return s
    stem, e = ext_split(it, r[1])
    x = it.ctx.sstr(c.a(0))
    dirp = S(r[0], '/') if r[0].parts or (s.parts and isinstance(s.parts[0], str) and s.parts[0].startswith('/')) else Str('')
    return S(dirp, stem, '.', x) if x.parts else S(dirp, stem)


@m('str', 'set_extension')
def _(c):
    c.set(BUILTIN[('str', 'with_extension')](c))
    return True


@m('str', 'with_file_name')
def _(c):
    r = last_component(c.it, ss(c))
    return path_join(c.it, r[0] if r else Str(''), c.args[0])


@m('str', 'components')
def _(c):
    return Native('components', s=ss(c), iterate=None)


@m('components', 'as_path', 'clone')
def _(c):
    return c.v.s


@m('components', 'next', 'next_back', 'all', 'any', 'map', 'filter', 'last', 'count', 'filter_map', 'collect', 'rev', 'skip', 'take', 'into_iter')
def _(c):
    it = c.it
    v = c.v
    if not hasattr(v, 'iter'):
        def g():
            for x in split_iter(it, v.s, Chr('/')):
                x = it.ctx.norm(x)
                l = x.lit()
                if l == '':
                    continue
                if l == '..':
                    yield Enum('Component', 'ParentDir')
                elif l == '.':
                    yield Enum('Component', 'CurDir')
                elif l is not None:
                    yield Enum('Component', 'Normal', [x])
                else:
                    k = it.ctx.choose(('component', it.freeze(x)), ['Normal', 'ParentDir', 'CurDir', 'RootDir'])
                    yield Enum('Component', k, [x] if k == 'Normal' else [])
        v.iter = Iter(g())
    c.v = v.iter
    return BUILTIN[('iter', c.name)](c)


std.EXT_ENUMS['Component'] = ['Prefix', 'RootDir', 'CurDir', 'ParentDir', 'Normal']


@m('str', 'exists', 'is_file', 'is_dir', 'is_symlink', 'is_absolute', 'is_relative', 'has_root')
def _(c):
    s = c.it.freeze(ss(c))
    c.it.ctx.effect('method', c.name, s)
    return Term('.' + c.name, (s,), T_BOOL)


@m('str', 'try_exists')
def _(c):
    s = c.it.freeze(ss(c))
    c.it.ctx.effect('method', c.name, s)
    return c.it.force(Term('.try_exists', (s,), Ty('Result', T_BOOL, Ty('io::Error'))))


@m('str', 'metadata', 'read_dir', 'symlink_metadata', 'canonicalize')
def _(c):
    s = c.it.freeze(ss(c))
    c.it.ctx.effect('method', c.name, s)
    return c.it.force(Term('.' + c.name, (s,), Ty('Result', Ty({'metadata': 'Metadata', 'symlink_metadata': 'Metadata', 'read_dir': 'ReadDir', 'canonicalize': 'Path'}[c.name]), Ty('io::Error'))))
