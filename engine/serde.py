"""Wire schema of types that derive serde traits, read off their attributes."""
import re
from .dom import *
from .std import default_of


def attr_items(attrs, side='de'):
    """serde(...) attribute entries as (name, value|None); `rename(serialize=..)` is split by side."""
    out = []
    for a in attrs:
        a = a.strip()
        m = re.match(r'^serde\s*\((.*)\)$', a, re.S)
        if not m:
            if a.startswith('cfg_attr') and 'serde' in a:
                raise Unsupported(f'conditional serde attribute {a}')
            continue
        body, depth, cur, parts, q = m.group(1), 0, '', [], False
        for ch in body:
            if ch == '"':
                q = not q
            if not q and ch in '([{':
                depth += 1
            if not q and ch in ')]}':
                depth -= 1
            if ch == ',' and depth == 0 and not q:
                parts.append(cur)
                cur = ''
            else:
                cur += ch
        parts.append(cur)
        for p in parts:
            p = p.strip()
            if not p:
                continue
            m2 = re.match(r'^(\w+)\s*(?:=\s*"(.*)")?$', p, re.S)
            if m2:
                out.append((m2.group(1), m2.group(2)))
                continue
            m2 = re.match(r'^(rename|rename_all)\s*\((.*)\)$', p, re.S)
            if m2:
                key = 'serialize' if side == 'ser' else 'deserialize'
                m3 = re.search(key + r'\s*=\s*"(.*?)"', m2.group(2))
                if m3:
                    out.append((m2.group(1), m3.group(1)))
                continue
            if re.match(r'^(bound|borrow|crate)\b', p):
                continue
            raise Unsupported(f'serde attribute {p}')
    return out


def words(name, is_variant):
    if is_variant:
        return [w for w in re.split(r'(?<!^)(?=[A-Z])', name)]
    return name.split('_')


def rename(name, rule, is_variant):
    if rule is None:
        return name
    if is_variant:
        snake = ''.join(('_' if i and ch.isupper() else '') + ch.lower() for i, ch in enumerate(name))
        pascal = name
    else:
        snake = name
        pascal = ''.join(w[:1].upper() + w[1:] for w in name.split('_'))
    r = {'lowercase': lambda: name.lower() if is_variant else name, 'UPPERCASE': lambda: name.upper(), 'PascalCase': lambda: pascal,
         'camelCase': lambda: pascal[:1].lower() + pascal[1:], 'snake_case': lambda: snake, 'SCREAMING_SNAKE_CASE': lambda: snake.upper(),
         'kebab-case': lambda: snake.replace('_', '-'), 'SCREAMING-KEBAB-CASE': lambda: snake.upper().replace('_', '-')}
    return r[rule]()


class Entry:
    """One key of a wire object."""

    def __init__(self, wire, names, ty, path, required, default, attrs):
        self.wire, self.names, self.ty, self.path, self.required, self.default, self.attrs = wire, names, ty, path, required, default, attrs

    def __repr__(self):
        return f'{self.wire}:{self.ty}{"!" if self.required else ""}'


def unwrap(ty):
    while ty is not None and ty[0] in ('Arc', 'Box', 'Rc', 'ref') and ty.args:
        ty = ty.arg(0)
    return ty


def has_derive(it, d, side):
    return it.derives(d, 'Deserialize' if side == 'de' else 'Serialize')


def struct_schema(it, ty, side='de', path=()):
    """-> list of Entry for a struct, flattened fields inlined."""
    ty = unwrap(ty)
    d = it.w.type(ty[0]) if isinstance(ty, tuple) else it.w.type(ty)
    if d.kind != 'struct' or d.node['kind'] != 'named':
        raise Unsupported(f'{d.id} is not a struct with named fields')
    if not has_derive(it, d, side):
        raise Unsupported(f'{d.id} does not derive {"Deserialize" if side == "de" else "Serialize"}')
    ca = attr_items(d.node['attrs'], side)
    cd = dict(ca)
    for k in cd:
        if k not in ('default', 'rename_all', 'rename', 'deny_unknown_fields', 'tag'):
            raise Unsupported(f'serde attribute {k} on {d.id}')
    fr = it.struct_frame(d, ty if isinstance(ty, Ty) else Ty(ty[0]))
    whole = None
    if 'default' in cd:
        whole = cd['default'] or True
    return field_entries(it, d, fr, d.node['fields'], cd.get('rename_all'), ty, whole, side, path)


def field_entries(it, d, fr, fields, rename_all, ty, whole, side, path=()):
    """The entries of the named fields of a struct or of a variant."""
    out = []
    for f in fields:
        fa = attr_items(f['attrs'], side)
        fd = dict(fa)
        fty = it.ty(f['ty'], fr)
        p = path + (f['name'],)
        if 'flatten' in fd:
            out += struct_schema(it, fty, side, p)
            continue
        if 'skip' in fd or (side == 'de' and 'skip_deserializing' in fd) or (side == 'ser' and 'skip_serializing' in fd):
            continue
        wire = fd.get('rename') or rename(f['name'].removeprefix('r#'), rename_all, False)
        names = [wire] + [v for k, v in fa if k == 'alias']
        req, dflt = True, None
        if 'default' in fd:
            req = False
            if fd['default']:
                dflt = ('fn', fd['default'], d)
            else:
                dflt = ('type', fty)
        elif whole is not None:
            req = False
            dflt = ('whole', ty, f['name']) if whole is True else ('wholefn', whole, d, f['name'])
        elif fty[0] == 'Option' and 'deserialize_with' not in fd and 'with' not in fd:
            req = False
            dflt = ('none',)
        out.append(Entry(wire, names, fty, p, req, dflt, fd))
    return out


def default_value(it, e):
    """Value of an omitted optional entry."""
    d = e.default
    if d[0] == 'none':
        return none()
    if d[0] == 'type':
        return default_of(it, unwrap(d[1]))
    if d[0] == 'fn':
        return it.call_def(resolve_fn(it, d[2], d[1]), [])
    if d[0] == 'whole':
        return it.field(default_of(it, unwrap(Ty(*d[1]) if not isinstance(d[1], Ty) else d[1])), d[2])
    return it.field(it.call_def(resolve_fn(it, d[2], d[1]), []), d[3])


def resolve_fn(it, d, path):
    segs = path.split('::')
    try:
        r = it.w.resolve(d.module, segs)
    except Exception:
        r = None
    if r is None or getattr(r, 'kind', None) != 'fn':
        if len(segs) >= 2:
            t = it.w.resolve(d.module, segs[:-1], 'type') if segs[:-1] != ['Self'] else d
            tid = getattr(t, 'id', None)
            c = it.w.methods.get((tid, segs[-1]))
            if c:
                return c[0][1]
        raise Unsupported(f'default function {path} of {d.id}')
    return r


def enum_names(it, tid, side='de'):
    """-> ({variant: [names]}, tag or None, {variant: payload field types})"""
    d = it.w.type(tid)
    if d.kind != 'enum':
        raise Unsupported(f'{tid} is not an enum')
    if not has_derive(it, d, side):
        raise Unsupported(f'{tid} does not derive {"Deserialize" if side == "de" else "Serialize"}')
    cd = dict(attr_items(d.node['attrs'], side))
    for k in cd:
        if k not in ('rename_all', 'tag', 'content', 'rename', 'default'):
            raise Unsupported(f'serde attribute {k} on {tid}')
    out, pay = {}, {}
    fr = it.struct_frame(d, Ty(tid))
    for v in d.node['variants']:
        va = attr_items(v['attrs'], side)
        vd = dict(va)
        if 'skip' in vd or (side == 'de' and 'skip_deserializing' in vd):
            continue
        if 'other' in vd or 'untagged' in vd:
            raise Unsupported(f'serde attribute on {tid}::{v["name"]}')
        wire = vd.get('rename') or rename(v['name'], cd.get('rename_all'), True)
        out[v['name']] = [wire] + [x for k, x in va if k == 'alias' and side == 'de']
        pay[v['name']] = [it.ty(f['ty'], fr) for f in v.get('fields', [])]
    return out, cd.get('tag'), pay
