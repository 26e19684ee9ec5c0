"""T02 - T04, R04: textual forms, JSON formats and configuration files."""
import re

from .util import *
from .keys import SVC
from engine.serde import attr_items, field_entries, default_value, rename, unwrap
from engine.interp import Infeasible
from engine.std import m as method


# ------------------------------------------------------------------ T03: what is written can be read back
class Shape:
    """The JSON of a type on one side: the kind of value, and for objects the entries of each alternative."""

    def __init__(self, kind, alts=(), names=(), d=None):
        self.kind, self.alts, self.names, self.d = kind, list(alts), list(names), d


CONTAINER = {'default', 'rename_all', 'rename', 'deny_unknown_fields', 'tag', 'content', 'untagged', 'transparent'}


def entries_of(it, d, fields, ca, side, ty, whole, path=(), rename_all=None):
    """-> alternatives, each a list of entries (an enum which is flattened gives several)."""
    fr = it.struct_frame(d, ty)
    plain, flat = [], []
    for f in fields:
        fd = dict(attr_items(f['attrs'], side))
        (flat if 'flatten' in fd else plain).append(f)
    alts = [field_entries(it, d, fr, plain, rename_all, ty, whole, side, path)]
    for f in flat:
        sh = shape(it, unwrap(it.ty(f['ty'], fr)), side, path + (f['name'],))
        if sh.kind != 'object':
            return None
        alts = [a + b for a in alts for b in sh.alts]
    return alts


def shape(it, ty, side, path=()):
    ty = unwrap(ty)
    try:
        d = it.w.type(ty[0])
    except Exception:
        d = None
    if d is None or d.kind not in ('struct', 'enum') or not it.derives(d, 'Deserialize' if side == 'de' else 'Serialize'):
        return Shape('value', d=d)
    cd = dict(attr_items(d.node['attrs'], side))
    for k in cd:
        if k not in CONTAINER:
            raise Unsupported(f'serde attribute {k} on {d.id}')
    whole = (cd['default'] or True) if 'default' in cd else None
    if d.kind == 'struct':
        if d.node['kind'] != 'named':
            if len(d.node['fields']) == 1:
                return shape(it, it.ty(d.node['fields'][0]['ty'], it.struct_frame(d, ty)), side, path)
            return Shape('value', d=d)
        alts = entries_of(it, d, d.node['fields'], cd, side, ty, whole, path, cd.get('rename_all'))
        return Shape('value', d=d) if alts is None else Shape('object', [Alt(a, None) for a in alts] if not path else alts, d=d)
    out = []
    for v in d.node['variants']:
        vd = dict(attr_items(v['attrs'], side))
        wire = vd.get('rename') or rename(v['name'], cd.get('rename_all'), True)
        names = [wire] + [x for k, x in attr_items(v['attrs'], side) if k == 'alias' and side == 'de']
        if 'skip' in vd or ('skip_deserializing' if side == 'de' else 'skip_serializing') in vd:
            continue
        if 'other' in vd:
            names.append('*')
        out.append((v, names, vd))
    if 'untagged' in cd:
        return Shape('untagged', [(v['name'], payload(it, d, v, ty, side)) for v, _, _ in out], d=d)
    if 'tag' in cd and 'content' not in cd:
        alts = []
        for v, names, vd in out:
            tag = Tag(cd['tag'], names, v['name'])
            if v['kind'] == 'named':
                for a in entries_of(it, d, v['fields'], cd, side, ty, None, path + (v['name'],), vd.get('rename_all')) or [[]]:
                    alts.append([tag] + a)
            elif v['fields']:
                sh = shape(it, it.ty(v['fields'][0]['ty'], it.struct_frame(d, ty)), side, path + (v['name'],))
                alts += [[tag] + list(a) for a in (sh.alts if sh.kind == 'object' else [[]])]
            else:
                alts.append([tag])
        return Shape('object', [Alt(a, None) for a in alts] if not path else alts, d=d)
    return Shape('names', names=[(v['name'], n, v) for v, n, _ in out], d=d)


class Tag:
    def __init__(self, wire, values, variant):
        self.wire, self.names, self.values, self.variant, self.required, self.path, self.attrs = wire, [wire], values, variant, True, ('tag', variant), {}


def Alt(a, _):
    return a


def payload(it, d, v, ty, side):
    if v['kind'] == 'unit':
        return Shape('null')
    if v['kind'] == 'named':
        return Shape('object', entries_of(it, d, v['fields'], {}, side, ty, None, (v['name'],)) or [])
    return shape(it, it.ty(v['fields'][0]['ty'], it.struct_frame(d, ty)), side, (v['name'],))


def required(alt):
    return {n for e in alt if e.required for n in [e.wire]}


def accepts(de, ser):
    """Whether the JSON of an object written as `ser` is read by `de` (by names only)."""
    have = {e.wire for e in ser if not skipped(e)}
    for e in de:
        if e.required and not set(e.names) & have:
            return False
        if isinstance(e, Tag):
            t = next((x for x in ser if isinstance(x, Tag) and x.wire == e.wire), None)
            if t is not None and t.values[0] not in e.values:
                return False
    return True


def skipped(e):
    return not isinstance(e, Tag) and ('skip_serializing_if' in e.attrs)


ALWAYS = {'Option::is_none': 'none', 'Vec::is_empty': 'empty', 'String::is_empty': 'empty', 'HashSet::is_empty': 'empty', 'HashMap::is_empty': 'empty', 'BTreeMap::is_empty': 'empty',
          'BTreeSet::is_empty': 'empty', 'str::is_empty': 'empty', 'Registers::is_empty': 'empty'}


def read_back(it, d):
    """Problems of reading what was written for one type which can do both."""
    o, name = [], d.id.split('::')[-1]
    ty = Ty(d.id)
    ser, de = shape(it, ty, 'ser'), shape(it, ty, 'de')
    if ser.kind != de.kind:
        return [('written in another form than read', f'{name}: {ser.kind}, {de.kind}')]
    if ser.kind == 'names':
        by = {v: n for v, n, _ in de.names}
        seen = {}
        for v, n, _ in de.names:
            for x in n:
                if x in seen:
                    o.append(('two variants have one name', f'{name}: {x} is {seen[x]} and {v}'))
                seen[x] = v
        for v, n, node in ser.names:
            if n[0] not in by.get(v, []):
                o.append(('a variant is written under a name which is not read', f'{name}::{v}: {n[0]}'))
            if node['kind'] == 'named':
                o += entries_back(it, d, entries_of(it, d, node['fields'], {}, 'ser', ty, None) or [], entries_of(it, d, node['fields'], {}, 'de', ty, None) or [], f'{name}::{v}')
        return o
    if ser.kind == 'untagged':
        for j, (v, s) in enumerate(ser.alts):
            own = dict(de.alts).get(v)
            if own is None:
                o.append(('a variant is not read', f'{name}::{v}'))
                continue
            for i, (u, earlier) in enumerate(de.alts):
                if u == v:
                    break
                if earlier.kind == 'value' and s.kind != 'null' and not (earlier.d is not None and earlier.d.kind == 'struct' and s.kind != 'object'):
                    o.append(('a variant is read as another one', f'{name}::{v} as {u}'))
                if earlier.kind == 'names' and s.kind == 'names' and {x for _, n, _ in s.names for x in n[:1]} & {x for _, n, _ in earlier.names for x in n}:
                    o.append(('a variant is read as another one', f'{name}::{v} as {u}'))
                if earlier.kind == 'object' and s.kind == 'object' and any(accepts(x, y) for x in earlier.alts for y in s.alts):
                    o.append(('a variant is read as another one', f'{name}::{v} as {u}'))
        return o
    if ser.kind == 'object':
        return entries_back(it, d, ser.alts, de.alts, name)
    return o


def entries_back(it, d, sers, des, name):
    o = []
    for alts, side in ((sers, 'written'), (des, 'read')):
        for a in alts:
            seen = {}
            for e in a:
                for n in e.names if side == 'read' else [e.wire]:
                    if n in seen and seen[n] is not e:
                        o.append(('two fields have one name', f'{name}: {n}, {side}'))
                    seen[n] = e
    tags = {}
    for a in des:
        key = tuple(sorted((e.wire, x) for e in a if isinstance(e, Tag) for x in e.values))
        variant = tuple(e.variant for e in a if isinstance(e, Tag))
        for k in key:
            if tags.setdefault((k, len(variant)), variant) != variant and len(key) == len(variant) == 1:
                o.append(('two variants have one name', f'{name}: {k}'))
    for a in sers:
        variant = [e.variant for e in a if isinstance(e, Tag)]
        b = next((b for b in des if [e.variant for e in b if isinstance(e, Tag)] == variant), None)
        if b is None:
            o.append(('a variant is not read', f'{name}: {variant}'))
            continue
        read = {e.path: e for e in b}
        for e in a:
            r = read.pop(e.path, None)
            label = f'{name}.{e.path[-1] if not isinstance(e, Tag) else e.wire}'
            if r is None:
                continue                    # written for others only
            if isinstance(e, Tag):
                if e.values[0] not in r.values or e.wire != r.wire:
                    o.append(('a variant is written under a name which is not read', f'{label}: {e.values[0]}'))
                continue
            if e.wire not in r.names:
                o.append(('a field is written under a name which is not read', f'{label}: {e.wire}'))
            for x, y in (('serialize_with', 'deserialize_with'),):
                if (x in e.attrs) != (y in r.attrs):
                    o.append(('a field is written and read in different forms', label))
            if 'skip_serializing_if' in e.attrs:
                o += skips(it, d, e, r, label)
        for e in read.values():
            if e.required:
                o.append(('a field which is not written is needed for reading', f'{name}.{e.path[-1]}'))
    return o


def skips(it, d, e, r, label):
    """A field left out has to be accepted, and read as the value for which it is left out."""
    p = e.attrs['skip_serializing_if']
    if r.required:
        return [('a field which may be left out is needed for reading', label)]
    v = it.force(deref(default_value(it, r)))
    kind = ALWAYS.get('::'.join(p.split('::')[-2:]))
    if kind == 'none':
        return [] if isinstance(v, Enum) and v.variant == 'None' else [('a field which is left out is read as another value', label)]
    if kind == 'empty':
        n = it.force(it.method(it.std.temp_ref(v), 'is_empty', []))
        return [] if it.ctx.truth(n) is True or n is True else [('a field which is left out is read as another value', label)]
    from engine.serde import resolve_fn
    f = resolve_fn(it, d, p)
    yes = it.force(deref(it.call_def(f, [it.std.temp_ref(v)], targs=(r.ty,) if f.node.get('generics') else ())))
    return [] if yes is True or it.ctx.truth(yes) else [('a field which is left out is read as another value', label)]


DEV = ('symbolicator_stress', 'process_event', 'symbolicator_test')


def t03(c):
    types = []
    for n, d in sorted(c.w.typedefs.items()):
        if 'test' in n or n.startswith(DEV) or d.kind not in ('struct', 'enum'):
            continue
        dv = ' '.join(a for a in d.node.get('attrs', []) if a.startswith('derive'))
        if re.search(r'\bSerialize\b', dv) and re.search(r'\bDeserialize\b', dv):
            types.append(d)
    c.rule('types', len(types) >= 60, f'only {len(types)} types are both written and read', 'serde')
    for d in types:
        def spec(it, a, out, d=d):
            if out.panic:
                return ('panic', out.panic)
            return [(k, m) for k, m in it.found]

        def run(it, f, a, d=d):
            it.found = read_back(it, d)
            return UNIT
        c.product(f'{"::".join(d.id.split("::")[-2:])} is read back', None, spec, run=run, floor=1, limit=200)


# ------------------------------------------------------------------ T02: textual forms
HEX = 'symbolicator_service::utils::hex::HexValue'
MODE = 'symbolicator_native::interface::AddrMode'


@method('json writer', 'serialize_str', 'serialize_u64')
def _write(c):
    v = deref(c.args[0])
    c.it.written.append(c.it.freeze(c.it.ctx.sstr(v)) if c.name == 'serialize_str' else v)
    return ok(Native('json done'))


@method('json writer', 'serialize_tuple', 'serialize_seq')
def _write_tuple(c):
    return ok(Native('json sequence'))


@method('json sequence', 'serialize_element')
def _write_element(c):
    c.it.written.append(c.it.freeze(c.it.ctx.sstr(deref(c.args[0]))))
    return ok(UNIT)


@method('json sequence', 'end')
def _write_end(c):
    return ok(Native('json done'))


@method('json reader', 'deserialize_any', 'deserialize_str', 'deserialize_u64')
def _read(c):
    return c.it.method(c.args[0], c.v.visit, list(c.v.content))


def t02(c):
    c.section('addresses', lambda: addresses(c))
    c.section('names', lambda: names(c))
    c.section('custom forms', lambda: customs(c))
    c.section('rewriting', lambda: rewriting(c))


def impl_fn(c, ty, fn):
    return next(im.fns[fn] for im in c.w.impls if im.self_id == ty and fn in im.fns)


def radix(it, a):
    """Digits in some base: those which were written with it are the number again."""
    t, base = it.freeze(it.ctx.sstr(deref(a[0]))), deref(a[1])
    if isinstance(t, Str):
        s = show(t).strip('"')
        t = t.parts[0] if len(t.parts) == 1 and isinstance(t.parts[0], Term) else t
        if all(isinstance(x, str) for x in getattr(t, 'parts', (0,))):
            digits = '0123456789abcdef'[:base]
            return ok(int(s, base)) if s and all(x in digits for x in s.lower()) and int(s, base) < 2 ** 64 else err(Term('not a number', (), Ty('E_ANY')))
    if isinstance(t, Term) and t.op == 'hex' and base == 16:
        return ok(t.args[0])
    return ok(Term('number in base', (t, base), Ty('u64'))) if it.ctx.choose(('digits', t, base), ['good', 'bad']) == 'good' else err(Term('not a number', (), Ty('E_ANY')))


def decimal(it, recv, args):
    t = it.freeze(it.ctx.sstr(deref(recv)))
    if isinstance(t, Str) and len(t.parts) == 1 and isinstance(t.parts[0], Term):
        t = t.parts[0]
    if isinstance(t, Term) and t.op == 'int':
        return ok(t.args[0])
    return radix(it, [recv, 10])


DIGITS = Term('digits', (), Ty('str'))


def addresses(c):
    models = {'u64::from_str_radix': radix}

    def parse(it, recv, args):
        t = deref(recv)
        return NotImplemented if not it.inside else decimal(it, recv, args)

    def read(it, f, a):
        return it.call_def(f, [it.json])

    def given(it):
        it.inside = False
        k = it.ctx.choose(('json',), ['signed', 'unsigned', 'text'])
        it.text = it.ctx.choose(('text',), [S('0x', DIGITS), S('0X', DIGITS), S('1', DIGITS), Str('12'), Str('0'), Str('0x'), Str('0x1F'), Str('0X1f'), Str('1f'), Str('')]) if k == 'text' else None
        it.json = Native('json reader', visit={'signed': 'visit_i64', 'unsigned': 'visit_u64', 'text': 'visit_str'}[k], content=[it.text if k == 'text' else Term('number', (), Ty('i64' if k == 'signed' else 'u64'))])
        return {}

    def hexparse(it, recv, args):
        """`parse` to an address on the outside, to a number within it."""
        if it.inside:
            return decimal(it, recv, args)
        it.inside = True
        return it.call_def(impl_fn(c, HEX, 'from_str'), [deref(recv)])

    def spec(it, a, out):
        if out.panic:
            return ('an address makes it panic', out.panic)
        k, v = it.ctx.known(('json',)), it.force(deref(out.value))
        if k != 'text':
            want = Term('number', (), Ty('u64'))
            n = it.field(v.fields[0], '0') if v.variant == 'Ok' else None
            if n is None or show(n) not in ('number', "as(number, 'u64')"):
                return ('a number is another address', f'{k}: {show(v)}')
            return
        t = show(it.freeze(it.ctx.sstr(it.text))).strip('"')
        base, body = (16, t[2:]) if t[:2] in ('0x', '0X') else (10, t)
        want = radix(it, [S(DIGITS) if body == '{digits}' else S('1', DIGITS) if body == '1{digits}' else Str(body), base])
        if v.variant != want.variant or v.variant == 'Ok' and show(it.field(v.fields[0], '0')) != show(want.fields[0]):
            return ('a text is another address', f'{t}: {show(v)}, not {show(want)}')
    c.product('addresses are read', impl_fn(c, HEX, 'deserialize'), spec, given=given, run=read, floor=12, models=models, mmodels={'parse': hexparse})

    def back(ty, value, visit='visit_str'):
        def run(it, f, a):
            it.written, it.inside = [], False
            it.value = value(it)
            it.force(it.call_def(f, [it.std.temp_ref(it.value), Native('json writer')]))
            if len(it.written) != 1:
                return err(Str('written in several pieces'))
            it.json = it.written[0]
            return it.call_def(impl_fn(c, ty, 'deserialize'), [Native('json reader', visit=visit, content=list(it.written))])
        return run

    def bspec(it, a, out):
        if out.panic:
            return ('panic', out.panic)
        v = it.force(deref(out.value))
        if v.variant != 'Ok' or show(it.freeze(v.fields[0])) != show(it.freeze(it.value)):
            return ('what is written is not read back', f'{show(it.value)} as {show(it.json)} is {show(v)}')
    c.product('addresses are read back', impl_fn(c, HEX, 'serialize'), bspec, run=back(HEX, lambda it: Struct(HEX, {'0': it.ctx.choose(('address',), [Term('number', (), Ty('u64')), 0, 2 ** 64 - 1])})),
              models=models, mmodels={'parse': hexparse}, floor=3)
    cow = {'Cow::deserialize': lambda it, a: ok(S(*[deref(a[0]).content[0]]) if not isinstance(deref(a[0]).content[0], Str) else deref(a[0]).content[0])}
    c.product('address modes are read back', impl_fn(c, MODE, 'serialize'), bspec, run=back(MODE, lambda it: it.ctx.choose(('mode',), [Enum(MODE, 'Abs', []), Enum(MODE, 'Rel', [Term('index', (), Ty('usize'))]), Enum(MODE, 'Rel', [0])])),
              models=cow, mmodels={'parse': decimal}, floor=3)

    def mspec(it, a, out):
        if out.panic:
            return ('an address mode makes it panic', out.panic)
        v, t = it.force(deref(out.value)), show(it.given).strip('"')
        m = re.match(r'^rel:(\d+)$', t)
        want = 'Abs' if t == 'abs' else f'Rel({m.group(1)})' if m else None
        got = None if v.variant == 'Err' else 'Abs' if it.force(v.fields[0]).variant == 'Abs' else f'Rel({show(it.force(v.fields[0]).fields[0])})'
        if got != want:
            return ('a text is another address mode', f'{t}: {got}')

    def mgiven(it):
        it.given = it.ctx.choose(('text',), [Str(x) for x in ('abs', 'Abs', 'rel:0', 'rel:17', 'rel:', 'rel', 'rel:x', 'rel:1:2', 'relx:1', 'abs:1', '', ':1', 'rel:-1')])
        return {'s': it.given}
    c.product('address modes', impl_fn(c, MODE, 'from_str'), mspec, given=mgiven, mmodels={'parse': decimal}, floor=13)
    c.product('address modes are read', impl_fn(c, MODE, 'deserialize'), mspec, given=lambda it: mgiven(it) and {}, models=cow, mmodels={'parse': decimal}, floor=13,
              run=lambda it, f, a: it.call_def(f, [Native('json reader', visit='visit_str', content=[it.given])]))


def same_names(c, name, ty, get, floor):
    """The text of every variant is the name under which it is written."""
    d = c.w.type(ty)

    def run(it, f, a):
        it.names = {v: n for v, n, _ in shape(it, Ty(ty), 'ser').names}
        it.texts = {}
        for v in d.node['variants']:
            it.texts[v['name']] = show(it.freeze(it.ctx.sstr(deref(get(it, Enum(ty, v['name'], [])))))).strip('"')
        return UNIT

    def spec(it, a, out):
        if out.panic:
            return ('panic', out.panic)
        return [('a name is written differently in two places', f'{name}::{v} is {t} and {it.names.get(v, [None])[0]}') for v, t in it.texts.items() if it.names.get(v, [None])[0] != t]
    c.product(f'the names of {name}', None, spec, run=run, floor=floor)


TYPES = SVC + 'types::'


def names(c):
    ref = lambda it, v: it.std.temp_ref(v)
    for ty in ('NativePlatform', 'JsPlatform', 'JvmPlatform'):
        same_names(c, ty, TYPES + ty, lambda it, v: it.method(ref(it, v), 'to_string', []), 1)
        same_names(c, ty + ' as text', TYPES + ty, lambda it, v: it.method(ref(it, v), 'as_ref', []), 1)
    same_names(c, 'ObjectFileStatus', TYPES + 'ObjectFileStatus', lambda it, v: it.method(ref(it, v), 'name', []), 1)
    T = TYPES + 'Platform'
    FAMILY = {'Native': 'NativePlatform', 'Js': 'JsPlatform', 'Jvm': 'JvmPlatform'}

    def run(it, f, a):
        k = it.kind = it.ctx.choose(('family',), list(FAMILY) + ['Other'])
        if k == 'Other':
            it.want, v = 'other', Enum(T, 'Other', [Str('other')])
        else:
            n = {x: n[0] for x, n, _ in shape(it, Ty(TYPES + FAMILY[k]), 'ser').names}
            x = it.ctx.choose(('variant', k), sorted(n))
            it.want, v = n[x], Enum(T, k, [Enum(TYPES + FAMILY[k], x, [])])
        r = ref(it, v)
        return Tup([it.method(r, 'to_string', []), it.method(r, 'as_ref', [])] + [it.method(r, m, []) for m in ('is_native', 'is_js', 'is_jvm')])

    def spec(it, a, out):
        if out.panic:
            return ('panic', out.panic)
        t = deref(out.value).items
        o = [('a platform has another name', f'{show(x)}, not {it.want}') for x in t[:2] if show(it.freeze(it.ctx.sstr(deref(x)))).strip('"') != it.want]
        if [it.force(x) for x in t[2:]] != [it.kind == x for x in FAMILY]:
            o.append(('a platform belongs to another family', f'{it.want}: {[it.force(x) for x in t[2:]]}'))
        return o
    c.product('platforms', None, spec, run=run, floor=11)


def bare(it, v):
    return show(it.freeze(it.ctx.sstr(deref(v)))).strip('"{}')


GLOB = 'symbolicator_sources::types::Glob'
OBJT = 'symbolicator_sources::types::ObjectType'
REGION = 'symbolicator_sources::sources::s3::S3Region'
S3 = 'symbolicator_sources::sources::s3::'


def customs(c):
    """Types which are written or read by code of their own."""
    cow = {'Cow::deserialize': lambda it, a: ok(deref(a[0]).content[0]), 'Deserialize::deserialize': lambda it, a: ok(deref(a[0]).content[0])}
    PAT = Term('pattern', (), Ty('str'))

    def glob(it, recv, args):
        return ok(Native('glob', of=it.freeze(it.ctx.sstr(deref(recv))))) if it.ctx.choose(('pattern',), ['good', 'bad']) == 'good' else err(Term('bad pattern', (), Ty('E_ANY')))
    method('glob', 'to_string', 'as_str')(lambda c2: c2.v.of)

    def gspec(it, a, out):
        if out.panic:
            return ('a pattern makes it panic', out.panic)
        v, bad = it.force(deref(out.value)), it.ctx.known(('pattern',)) == 'bad'
        if (v.variant == 'Err') != bad:
            return ('a bad pattern is accepted, or a good one rejected', v.variant)
        if not bad and show(deref(it.field(v.fields[0], '0')).of).strip('"') not in ('{pattern}', 'pattern'):
            return ('a pattern is read as another one', show(deref(it.field(v.fields[0], '0')).of))
    c.product('patterns are read', impl_fn(c, GLOB, 'deserialize'), gspec, models=cow, mmodels={'parse': glob}, floor=2,
              run=lambda it, f, a: it.call_def(f, [Native('json reader', visit='visit_str', content=[S(PAT)])]))

    def wspec(it, a, out):
        if out.panic or len(it.written) != 1 or show(it.written[0]).strip('"') not in ('{pattern}', 'pattern'):
            return ('a pattern is written as another one', f'{out.panic or [show(x) for x in it.written]}')

    def wrun(it, f, a):
        it.written = []
        return it.call_def(f, [it.std.temp_ref(Struct(GLOB, {'0': Native('glob', of=S(PAT))})), Native('json writer')])
    c.product('patterns are written', impl_fn(c, GLOB, 'serialize'), wspec, run=wrun)

    # object types: any text is read, an unknown one as unknown
    def orun(it, f, a):
        it.text = it.ctx.choose(('text',), ['elf', 'macho', 'pe', 'wasm', 'pe_dotnet', 'unknown', 'ELF', 'Pe', '', 'pedotnet', 'elfx'])
        return it.call_def(f, [Native('json reader', visit='visit_str', content=[Str(it.text)])])

    def ospec(it, a, out):
        if out.panic:
            return ('an object type makes it panic', out.panic)
        v = it.force(deref(out.value))
        n = {x: y[0] for x, y, _ in shape(it, Ty(OBJT), 'ser').names}
        want = it.text if it.text in n.values() else 'unknown'
        if v.variant != 'Ok' or n.get(it.force(v.fields[0]).variant) != want:
            return ('an object type is read as another one', f'{it.text}: {show(v)}')
    c.product('object types are read', impl_fn(c, OBJT, 'deserialize'), ospec, models=cow,
              mmodels={'parse': lambda it, r, a: it.call_def(impl_fn(c, OBJT, 'from_str'), [deref(r)])}, floor=11, run=orun)

    # regions
    REG, END = S(Term('region', (), Ty('str'))), S(Term('endpoint', (), Ty('str')))
    method('aws region', 'as_ref', 'as_str', 'to_string')(lambda c2: c2.v.of)
    region = {'Region::new': lambda it, a: Native('aws region', of=it.freeze(it.ctx.sstr(deref(a[0])))), 'SeqAccessDeserializer::new': lambda it, a: deref(a[0]),
              'Deserialize::deserialize': lambda it, a: ok(Tup(list(deref(a[0]).items_))) if len(deref(a[0]).items_) == 2 else err(Term('wrong length', (), Ty('E_ANY')))}

    def rrun(it, f, a):
        it.written = []
        it.custom = it.ctx.choose(('endpoint',), [True, False])
        it.value = Struct(REGION, {'region': Native('aws region', of=REG), 'endpoint': some(END) if it.custom else none()})
        it.force(it.call_def(f, [it.std.temp_ref(it.value), Native('json writer')]))
        w = it.written
        g = c.w.fn(S3 + 'deserialize_region')
        if it.custom:
            return it.call_def(g, [Native('json reader', visit='visit_seq', content=[Native('sequence', items_=w)])])
        return it.call_def(g, [Native('json reader', visit='visit_str', content=[w[0]])])

    def rspec(it, a, out):
        if out.panic:
            return ('a region makes it panic', out.panic)
        v = it.force(deref(out.value))
        if v.variant != 'Ok':
            return ('a region is not read back', show(v))
        x = deref(v.fields[0])
        e = it.force(deref(it.field(x, 'endpoint')))
        if getattr(deref(it.field(x, 'region')), 'of', None) is None or bare(it, deref(it.field(x, 'region')).of) != 'region' or (e.variant == 'Some') != it.custom or e.variant == 'Some' and bare(it, e.fields[0]) != 'endpoint':
            return ('a region is read back as another one', show(x))
    c.product('regions are read back', S3 + 'serialize_region', rspec, run=rrun, models=region, floor=2)


def rewriting(c):
    """Rewriting the name of a debug file: the first rule which matches decides."""
    IF = 'symbolicator_native::interface::'

    def given(it):
        n = it.ctx.choose(('rules',), [0, 1, 2, 3])
        it.fits = [it.ctx.choose(('fits', i), [False, True]) for i in range(n)]
        rules = [Struct(IF + 'RewriteRule', {'from': Native('pattern to rewrite', i=i), 'to': Str(f'to {i}')}) for i in range(n)]
        return {'self': it.std.temp_ref(Struct(IF + 'RewriteRules', {'0': Vec(rules)})), 'debug_file': Str('the file')}

    def replace(c2):
        f, t = show(deref(c2.args[0])).strip('"'), show(deref(c2.args[1])).strip('"')
        if c2.it.fits[c2.v.i] is False:
            return Enum('Cow', 'Borrowed', [deref(c2.args[0])])
        return Enum('Cow', 'Owned', [Str(f'{f} by {t}')])
    method('pattern to rewrite', 'replace')(replace)

    def spec(it, a, out):
        if out.panic:
            return ('rewriting panics', out.panic)
        v = it.force(deref(out.value))
        i = it.fits.index(True) if True in it.fits else None
        got = show(v.fields[0]).strip('"') if v.variant == 'Some' else None
        if got != (None if i is None else f'the file by to {i}'):
            return ('another rule decides about the name', f'{it.fits}: {got}')
    c.product('rewriting', IF + 'RewriteRules::rewrite', spec, given=given, floor=15)


# ------------------------------------------------------------------ R04: the configuration file
CFG = SVC + 'config::'
SECOND = 10 ** 9
OPTIONAL = 'no value'
# the documented settings with their defaults (docs/index.md); `None`: not documented, but optional
SETTINGS = {
    'Config': {'bind': '127.0.0.1:3021', 'bind_https': OPTIONAL, 'cache_dir': OPTIONAL, 'sentry_dsn': OPTIONAL, 'symstore_proxy': True, 'connect_to_reserved_ips': False, 'sources': [],
               'traces_sample_rate': 0.05, 'propagate_traces': True, 'max_concurrent_requests': 200, 'max_download_timeout': None, 'connect_timeout': None, 'head_timeout': None,
               'streaming_timeout': None, 'logging': None, 'metrics': None, 'caches': None, 'shared_cache': OPTIONAL, 'server_config': None,
               'deny_list_enabled': True, 'deny_list_never_block_hosts': []},
    'Logging': {'level': 'INFO', 'format': 'Auto', 'enable_backtraces': True},
    'Metrics': {'statsd': 'environment', 'prefix': 'symbolicator', 'hostname_tag': OPTIONAL, 'environment_tag': OPTIONAL},
    'ServerConfig': {'https': OPTIONAL},
}
LEVELS = {'off': 'OFF', 'error': 'ERROR', 'warn': 'WARN', 'info': 'INFO', 'debug': 'DEBUG', 'trace': 'TRACE'}
FORMATS = {'json', 'simplified', 'pretty', 'auto'}


def plainly(it, v):
    v = it.force(deref(v))
    if isinstance(v, Enum) and v.variant == 'None':
        return OPTIONAL
    if isinstance(v, Enum) and v.variant == 'Some':
        return plainly(it, v.fields[0])
    if isinstance(v, (bool, int, float)):
        return v
    if isinstance(v, Enum):
        return v.variant
    if hasattr(v, 'items') and not callable(v.items):
        return [plainly(it, x) for x in v.items]
    if hasattr(v, 'numerator'):
        return float(v)
    return show(v).strip('"').split('LevelFilter::')[-1]


def r04(c):
    c.section('settings', lambda: settings(c))
    c.section('levels', lambda: levels(c))
    c.section('files', lambda: files(c))


def settings(c):
    from engine.serde import struct_schema
    from engine.std import default_of
    for t, want in SETTINGS.items():
        def run(it, f, a, t=t):
            it.env = it.ctx.choose(('environment',), [True, False]) if t == 'Metrics' else False
            it.docker = it.ctx.choose(('docker',), [True, False]) if t == 'Config' else False
            it.es = {n: e for e in struct_schema(it, Ty(CFG + t)) for n in e.names}
            it.whole = it.force(default_of(it, Ty(CFG + t)))
            it.values = {n: (plainly(it, default_value(it, e)), plainly(it, it.field(it.whole, e.path[-1]))) for n, e in it.es.items() if not e.required and SETTINGS[t].get(n) is not None}
            return UNIT

        def spec(it, a, out, t=t, want=want):
            if out.panic:
                return ('panic', out.panic)
            o = []
            for n, w in want.items():
                e = it.es.get(n)
                if e is None or e.required:
                    o.append(('a documented setting is not read, or cannot be left out', f'{t}.{n}'))
                    continue
                if w is None:
                    continue
                if it.docker:
                    w = {'bind': '0.0.0.0:3021', 'cache_dir': '/data'}.get(n, w)
                if w == 'environment':
                    w = 'from the environment' if it.env else OPTIONAL
                for g in it.values[n]:
                    if str(g) != str(w):
                        o.append(('a setting which is left out has another value than documented', f'{t}.{n} is {g}, not {w}'))
            for n, e in it.es.items():
                if e.required:
                    o.append(('a setting cannot be left out', f'{t}.{n}'))
                dur = unwrap(e.ty.arg(0) if e.ty[0] == 'Option' else e.ty)
                if dur is not None and dur[0] == 'Duration' and e.attrs.get('with', '').split('::')[0] != 'humantime_serde':
                    o.append(('a time is not read with its unit', f'{t}.{n}'))
            if t == 'Config' and it.es.get('transaction_sample_rate') is not it.es.get('traces_sample_rate'):
                o.append(('the former name of a setting is no longer read', 'transaction_sample_rate'))
            return o
        c.product(f'settings of {t}', None, spec, run=run, floor=1, opaque={'is_docker': lambda it, a: it.docker},
                  models={'env::var': lambda it, a: ok(Str('from the environment')) if it.env else err(Term('no variable', (), Ty('E_ANY')))})

    def fspec(it, a, out):
        n = {x: y for x, y, _ in shape(it, Ty(CFG + 'LogFormat'), 'de').names}
        got = {y.lower(): v for v, ys in n.items() for y in ys}
        if not FORMATS <= set(sum(n.values(), [])) or any(got[x] != x.capitalize() for x in FORMATS):
            return ('a documented log format is not read', str(n))
    c.product('log formats', None, fspec, run=lambda it, f, a: UNIT)


def levels(c):
    def run(it, f, a):
        it.text = it.ctx.choose(('level',), list(LEVELS) + ['Info', 'warning', '', 'of', 'errors'])
        return it.call_def(f, [Native('json reader', visit='visit_str', content=[Str(it.text)])])

    def spec(it, a, out):
        if out.panic:
            return ('a log level makes it panic', out.panic)
        v = it.force(deref(out.value))
        got = show(v.fields[0]).split('::')[-1].strip('"<>') if v.variant == 'Ok' else None
        if got != LEVELS.get(it.text):
            return ('a log level is read as another one', f'{it.text}: {show(v)}')
    c.product('log levels', CFG + 'deserialize_level_filter', spec, run=run, floor=11)


def files(c):
    TEXT = {'empty': Str(''), 'blank': Str(' \n\t'), 'some': Str(' bind: x\n')}
    method('config file', 'read_to_string')(lambda c2: _contents(c2))
    method('config text', 'context', 'with_context')(lambda c2: c2.v)

    def _contents(c2):
        it = c2.it
        if it.ctx.choose(('reading',), ['works', 'fails']) == 'fails':
            return err(Term('unreadable', (), Ty('E_IO')))
        c2.args[0].set(TEXT[it.ctx.choose(('text',), list(TEXT))])
        return ok(1)

    def parse(it, a):
        it.parsed.append(show(deref(a[0])).strip('"'))
        return ok(Native('parsed configuration')) if it.ctx.choose(('yaml',), ['good', 'bad']) == 'good' else err(Term('bad yaml', (), Ty('E_ANY')))

    def given(it):
        it.parsed = []
        it.path = it.ctx.choose(('path',), [True, False])
        return {'path': some(Native('path of the configuration')) if it.path else none()}

    def spec(it, a, out):
        if out.panic:
            return ('a configuration file makes it panic', out.panic)
        v, k = it.force(deref(out.value)), it.ctx.known
        if not it.path:
            return None if v.variant == 'Ok' and getattr(deref(v.fields[0]), 'kind', '') == 'default configuration' else ('without a file the settings are not the defaults', show(v))
        bad = k(('open',)) == 'fails' or k(('reading',)) == 'fails' or k(('text',)) in ('empty', 'blank') or k(('yaml',)) == 'bad'
        if (v.variant == 'Err') != bad:
            return ('a broken configuration file is used, or a good one rejected', f'{show(v)}')
        if not bad and (getattr(deref(v.fields[0]), 'kind', '') != 'parsed configuration' or [x.strip() for x in it.parsed] != ['bind: x'] and [x.strip() for x in it.parsed] != ['bind: x\\n']):
            return ('the configuration is not that of the file', f'{show(v)}, {it.parsed}')

    def opening(it, a):
        return ok(Native('config file')) if it.ctx.choose(('open',), ['works', 'fails']) == 'works' else err(Term('no such file', (), Ty('E_IO')))
    c.product('configuration files', CFG + 'Config::get', spec, given=given, floor=7, models={'fs::File::open': opening, 'File::open': opening, 'serde_yaml::from_str': parse},
              opaque={'Config::default': lambda it, a: Native('default configuration')})


# ------------------------------------------------------------------ R05: error answers
ERR = 'symbolicator::endpoints::error::'


def r05(c):
    c.section('answers', lambda: error_answers(c))
    c.section('causes', lambda: causes(c))


def error_answers(c):
    from .download import STATUS as CODES
    STATUS = [k for k, v in CODES.items() if v >= 400]
    method('error answer', 'status_mut')(lambda c2: Ref(lambda: None, lambda v: c2.it.statuses.append(show(it_force(c2.it, v)).split('::')[-1])))
    method('error answer', 'headers_mut')(lambda c2: Native('headers'))

    def it_force(it, v):
        return it.force(deref(v))

    def run(it, f, a):
        it.statuses, it.captured, it.bodies = [], [], []
        it.st = it.ctx.choose(('status',), STATUS)
        return it.call_def(f, [Struct(ERR + 'ResponseError', {'status': Enum('StatusCode', it.st, []), 'err': Native('the error')})])

    def spec(it, a, out):
        if out.panic:
            return ('an error answer panics', out.panic)
        o, want = [], CODES[it.st] >= 500 and it.st != 'SERVICE_UNAVAILABLE'
        if it.statuses != [it.st]:
            o.append(('an error is answered with another status', f'{it.st}: {it.statuses}'))
        if len(it.captured) != want:
            o.append(('a failure of the server is not reported, or one of the client is', it.st))
        if [getattr(deref(b), 'kind', '?') for b in it.bodies] != ['the body'] or it.described != ['the error'] or any(x != 'the error' for x in it.captured):
            o.append(('the answer describes another error', f'{[show(b) for b in it.bodies]} {it.described}'))
        if getattr(deref(out.value), 'kind', '') != 'error answer':
            o.append(('the answer is another one', show(out.value)))
        return o

    def body(it, a):
        it.described = [deref(a[0]).kind]
        return Native('the body')

    def answer(it, recv, args):
        v = deref(recv)
        if isinstance(v, (Struct, Enum, Native, Tup)):
            x = v
            if isinstance(x, Tup):
                x = deref(x.items[0])
            while isinstance(x, (Struct, Enum)) and (x.fields.values() if isinstance(x.fields, dict) else x.fields):
                x = deref(list(x.fields.values() if isinstance(x.fields, dict) else x.fields)[0])
            it.bodies.append(x)
            return Native('error answer')
        return NotImplemented
    def capture(it, a):
        it.captured.append(deref(a[0]).kind)
        return UNIT
    c.product('error answers', impl_fn(c, ERR + 'ResponseError', 'into_response'), spec, run=run, floor=30, models={'anyhow::capture_anyhow': capture, 'capture_anyhow': capture, 'sentry::capture_error': capture, 'axum::Json': lambda it, a: Tup([a[0]]), 'Json': lambda it, a: Tup([a[0]])}, opaque={'ApiErrorResponse::from': body},
              mmodels={'into_response': answer})


def causes(c):
    from engine.serde import struct_schema
    method('chained error', 'chain')(lambda c2: c2.it.method(c2.it.std.temp_ref(Vec([Native('cause', n=i) for i in range(c2.it.ncauses)])), 'into_iter', []))
    method('cause', 'to_string')(lambda c2: Str(f'message {c2.v.n}'))
    method('chained error', 'to_string')(lambda c2: Str('message 0'))

    def run(it, f, a):
        it.ncauses = it.ctx.choose(('causes',), [1, 2, 3])
        return it.call_def(f, [Native('chained error')])

    def spec(it, a, out):
        if out.panic:
            return ('an error answer panics', out.panic)
        v = it.force(deref(out.value))
        d, cs = it.force(deref(it.field(v, 'detail'))), it.force(deref(it.field(v, 'causes')))
        o = []
        if d.variant != 'Some' or show(deref(d.fields[0])).strip('"') != 'message 0':
            o.append(('an error is described by another message', show(d)))
        got = [] if cs.variant == 'None' else [show(x).strip('"') for x in items(it, cs.fields[0])]
        if got != [f'message {i}' for i in range(1, it.ncauses)] or (cs.variant == 'Some') != (it.ncauses > 1):
            o.append(('the causes of an error are others', f'{it.ncauses - 1}: {show(cs)}'))
        names = {e.wire for e in struct_schema(it, Ty(ERR + 'ApiErrorResponse'), 'ser')}
        if names != {'detail', 'causes'}:
            o.append(('the fields of error answers are others', str(names)))
        return o
    c.product('causes', impl_fn(c, ERR + 'ApiErrorResponse', 'from'), spec, run=run, floor=3)
