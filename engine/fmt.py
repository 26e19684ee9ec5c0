"""Formatting: format strings, Display/Debug of abstract values."""
import re
from .dom import *
from .syntax import Def


class Spec:
    __slots__ = ('alt', 'zero', 'width', 'ty', 'fill', 'prec', 'align')

    def __init__(self, s=''):
        self.alt = self.zero = False
        self.width = None
        self.prec = None
        self.fill = None
        m = re.match(r'^(?:(.)?([<^>]))?([+\-])?(#)?(0)?(\d+|\w+\$)?(?:\.(\d+|\w+\$|\*))?(\?|x\?|X\?|x|X|b|o|e|E|p)?$', s)
        if not m:
            raise Unsupported(f'format spec {s!r}')
        self.alt = bool(m.group(4))
        self.zero = bool(m.group(5))
        self.width = int(m.group(6)) if m.group(6) and m.group(6).isdigit() else m.group(6)
        self.prec = m.group(7)
        self.ty = m.group(8) or ''
        self.align = m.group(2)
        self.fill = m.group(1) if m.group(1) != ' ' else None
        if self.fill == '0' and self.align == '>' and not self.alt:
            self.zero, self.fill, self.align = True, None, None      # the same for the unsigned numbers there are here

    def key(self):
        return f"{self.fill or ''}{self.align or ''}{'#' if self.alt else ''}{'0' if self.zero else ''}{self.width or ''}{'.' + self.prec if self.prec else ''}{self.ty}"


def parse_format(s):
    """-> list of literal | (argname or None, spec)"""
    out = []
    i = 0
    buf = ''
    while i < len(s):
        c = s[i]
        if c == '{':
            if s[i + 1:i + 2] == '{':
                buf += '{'
                i += 2
                continue
            j = s.index('}', i)
            inner = s[i + 1:j]
            if buf:
                out.append(buf)
                buf = ''
            if ':' in inner:
                a, sp = inner.split(':', 1)
            else:
                a, sp = inner, ''
            out.append((a.strip() or None, sp.strip()))
            i = j + 1
            continue
        if c == '}' and s[i + 1:i + 2] == '}':
            buf += '}'
            i += 2
            continue
        buf += c
        i += 1
    if buf:
        out.append(buf)
    return out


def format_args(it, e, args, env):
    """args: expression nodes, the first one being the format string."""
    f = args[0]
    if f['k'] == 'macro' and f['name'] == 'concat':
        fs = it.val(f, env)
        fs = fs.lit()
    elif f['k'] == 'lit' and f['t'] == 'str':
        fs = f['v']
    elif f['k'] == 'expanded':
        v = it.val(f, env)
        return it.ctx.sstr(v)
    else:
        v = it.val(f, env)
        if len(args) == 1:
            return display(it, v, Spec())
        raise Unsupported('format string is not a literal')
    pos, named = [], {}
    for a in args[1:]:
        if a['k'] == 'assign' and a['l']['k'] == 'path':
            named[a['l']['p']['segs'][0][0]] = a['r']
        else:
            pos.append(a)
    vals = {}

    def get(key):
        if key in vals:
            return vals[key]
        if isinstance(key, int):
            if key >= len(pos):
                raise Unsupported('format argument')
            v = it.val(pos[key], env)
        elif key in named:
            v = it.val(named[key], env)
        else:
            v = it.val({'k': 'path', 'p': {'segs': [[key, []]], 'qself': None}, 'line': e.get('line')}, env)
        vals[key] = v
        return v
    for i in range(len(pos)):
        get(i)
    out = []
    nxt = 0
    for p in parse_format(fs):
        if isinstance(p, str):
            out.append(p)
            continue
        a, sp = p
        if a is None:
            key = nxt
            nxt += 1
        elif a.isdigit():
            key = int(a)
        else:
            key = a
        spec = Spec(sp)
        if isinstance(spec.width, str):
            spec.width = get(spec.width[:-1])
        out.append(display(it, get(key), spec))
    return S(*out)


def pad(t, spec, default):
    f, a = spec.fill or ' ', spec.align or default
    return t.ljust(spec.width, f) if a == '<' else t.rjust(spec.width, f) if a == '>' else t.center(spec.width, f)


def strfmt_pad(s, spec):
    if spec.width and s.lit() is not None and isinstance(spec.width, int):
        t = s.lit()
        if spec.zero:
            return Str(t.rjust(spec.width, '0'))
        return Str(pad(t, spec, '<'))
    if spec.width:
        return Str((Term('pad', (s, str(spec.width)), T_STR),))
    return s


def int_fmt(it, v, spec):
    if isinstance(v, Fraction):
        return Str(str(v if v.denominator == 1 else float(v)))
    if isinstance(v, int):
        if spec.ty == 'x':
            t = format(v, 'x')
        elif spec.ty == 'X':
            t = format(v, 'X')
        elif spec.ty == 'b':
            t = format(v, 'b')
        else:
            t = str(v)
        if spec.alt and spec.ty in ('x', 'X'):
            t = '0x' + t
        if isinstance(spec.width, int):
            t = t.rjust(spec.width, '0') if spec.zero else pad(t, spec, '>')
        return Str(t)
    pre = ('0x',) if spec.alt and spec.ty in ('x', 'X') else ()
    if spec.ty in ('x', 'X'):
        if v.op == 'byteof' and spec.width == 2 and spec.zero:
            i = v.args[1]
            a = mk_slice(v.args[0], 2 * i, 2 * i + 2)
        elif spec.width and spec.zero:
            a = Term('hexn', (v, spec.width), T_STR)
        elif spec.width:
            a = Term('hexpad', (v, spec.width), T_STR)
        else:
            a = Term('hex', (v,), T_STR)
        if spec.ty == 'X':
            a = case_atom('upper', a)
        return Str(pre + (a,))
    if spec.width:
        return Str((Term('intpad', (v, spec.key()), T_STR),))
    return Str((Term('int', (v,), T_STR),))


def display(it, v, spec=None, fuel=12):
    spec = spec or Spec()
    v = deref(v)
    if isinstance(v, Future):
        raise Unsupported('formatting a future')
    dbg = spec.ty in ('?', 'x?', 'X?')
    if isinstance(v, bool):
        return Str('true' if v else 'false')
    if isinstance(v, (int, Fraction)):
        return int_fmt(it, v, spec)
    if isinstance(v, Chr):
        return Str(repr(v.c) if dbg else v.c)
    if isinstance(v, Str):
        if dbg:
            return S('"', v, '"')
        return strfmt_pad(v, spec)
    if v is UNIT:
        return Str('()')
    tid = it.tyid(v)
    if isinstance(v, Native) and hasattr(v, 'display'):
        return v.display(spec)
    if tid in it.w.typedefs:
        r = user_display(it, v, tid, spec)
        if r is not None:
            return r
        fm = it.std.EXT_DISPLAY.get(tid)
        if fm:
            return fm(it, v, spec)
        if dbg:
            return debug(it, v, spec, fuel)
        r = thiserror_display(it, v, tid)
        if r is not None:
            return r
        return Str((Term('display', (it.freeze(v),), T_STR),))
    if isinstance(v, Term):
        v0 = v
        v = it.ctx.norm(v)
        if isinstance(v, Str):
            return display(it, v, spec)
        ty = v.ty or v0.ty
        if ty is not None:
            if ty[0] == 'str':
                if dbg:
                    return S('"', Str((v,)), '"')
                return strfmt_pad(Str((v,)), spec)
            if is_int_ty(ty) and ty[0] not in ('Duration', 'SystemTime', 'Instant'):
                return int_fmt(it, v, spec)
            if ty[0] == 'bool':
                return display(it, it.ctx.truth(v), spec)
            fm = it.std.EXT_DISPLAY.get(ty[0])
            if fm:
                return fm(it, v, spec)
            if ty[0] in ('Option', 'Result', 'Vec', 'tuple', 'Set') and dbg:
                return Str((Term('fmt', (spec.ty, v), T_STR),))
        elif v.op == 'byteof' or v.op == 'lin':
            return int_fmt(it, v, spec)
        if spec.key() in ('',):
            return Str((Term('display', (v,), T_STR),))
        return Str((Term('fmt', (spec.key(), v), T_STR),))
    if dbg:
        return debug(it, v, spec, fuel)
    if isinstance(v, Enum) and v.ty not in ('Option', 'Result'):
        return Str((Term('display', (it.freeze(v),), T_STR),))
    if isinstance(v, Native):
        return Str((Term('display', (it.freeze(v),), T_STR),))
    raise Unsupported(f'Display of {show(v)}')


TRAITS = {'': 'Display', '?': 'Debug', 'x': 'LowerHex', 'X': 'UpperHex'}


def user_display(it, v, tid, spec):
    tr = TRAITS.get(spec.ty)
    if tr is None:
        return None
    for im, d in it.w.methods.get((tid, 'fmt'), []):
        if (im.trait or '').split('::')[-1] == tr:
            buf = [Str('')]
            f = formatter(buf, spec)
            it.call_def(d, [v, f])
            return buf[0]
    return None


def formatter(buf, spec=None):
    def s(x):
        buf[0] = x
    return Native('formatter', ref=Ref(lambda: buf[0], s), spec=spec or Spec())


def thiserror_display(it, v, tid):
    d = it.w.typedefs[tid]
    if d.kind == 'enum':
        v = it.force(v)
        if not isinstance(v, Enum):
            return None
        vn = [x for x in d.node['variants'] if x['name'] == v.variant][0]
        attrs = vn['attrs']
        fields = v.fields
    else:
        attrs = d.node['attrs']
        fields = v.fields if isinstance(v, Struct) else {f['name']: it.field(v, f['name']) for f in d.node['fields']}
    for a in attrs:
        if not a.startswith('error'):
            continue
        if 'transparent' in a:
            return display(it, fields[0] if isinstance(fields, list) else list(fields.values())[0])
        m = re.match(r'error\s*\(\s*"((?:[^"\\]|\\.)*)"', a)
        if m:
            out = []
            for p in parse_format(m.group(1).encode().decode('unicode_escape')):
                if isinstance(p, str):
                    out.append(p)
                else:
                    n, sp = p
                    if n is None:
                        n = '0'
                    x = fields[int(n)] if isinstance(fields, list) else fields.get(n)
                    if x is None:
                        return None
                    out.append(display(it, x, Spec(sp)))
            return S(*out)
    return None


def debug(it, v, spec, fuel=12):
    v = deref(v)
    if fuel <= 0:
        return Str('..')
    sub = Spec('?')

    def rec(x):
        return display(it, x, sub, fuel - 1)
    if isinstance(v, Term):
        ty = v.ty
        d = it.typedef(ty)
        if d is not None and d.kind == 'struct' and it.derives(d, 'Debug'):
            v = it.materialize(v)
        elif d is not None and d.kind == 'enum' and it.derives(d, 'Debug'):
            v = it.force(v)
        else:
            return Str((Term('fmt', ('?', v), T_STR),))
    if isinstance(v, Struct):
        name = v.ty.split('::')[-1]
        d = it.w.typedefs.get(v.ty)
        if d is not None and d.node.get('kind') == 'tuple':
            return join(name + '(', [rec(x) for x in v.fields.values()], ')')
        return join(name + ' { ', [S(k + ': ', rec(x)) for k, x in v.fields.items()], ' }')
    if isinstance(v, Enum):
        if not v.fields:
            return Str(v.variant)
        if isinstance(v.fields, dict):
            return join(v.variant + ' { ', [S(k + ': ', rec(x)) for k, x in v.fields.items()], ' }')
        return join(v.variant + '(', [rec(x) for x in v.fields], ')')
    if isinstance(v, Vec):
        return join('[', [rec(x) for x in v.items], ']')
    if isinstance(v, Tup):
        return join('(', [rec(x) for x in v.items], ')')
    if isinstance(v, Map):
        return join('{', [S(rec(a), ': ', rec(b)) for a, b in v.items], '}')
    return Str((Term('fmt', ('?', it.freeze(v)), T_STR),))


def join(a, xs, b):
    out = [a]
    for i, x in enumerate(xs):
        if i:
            out.append(', ')
        out.append(x)
    out.append(b)
    return S(*out)
