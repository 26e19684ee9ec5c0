"""S01, S02, S08: lookup paths."""
from .util import *

FILE_TYPES = ['Pe', 'Pdb', 'PortablePdb', 'MachDebug', 'MachCode', 'ElfDebug', 'ElfCode', 'WasmDebug', 'WasmCode', 'Breakpad', 'SourceBundle',
              'UuidMap', 'BcSymbolMap', 'Il2cpp', 'Proguard']
P = 'symbolicator_sources::paths::'


class Ident:
    """The object identity as the specification sees it."""

    def __init__(self, it, ident):
        self.it = it
        self.ident = ident

    def kind(self):
        return variant(self.it, self.it.field(self.ident, 'object_type'))

    def code_id(self):
        c = fopt(self.it, self.ident, 'code_id')
        return None if c is None else Str((Term('code_id_str', (c,), T_STR),))

    def debug_id(self):
        return fopt(self.it, self.ident, 'debug_id')

    def name(self, field):
        """The last component of a file name, if it is safe to use in a path."""
        it = self.it
        f = fopt(it, self.ident, field)
        if f is None:
            return None
        return safe_name(it, strval(it, f))

    def code_name(self):
        return self.name('code_file')

    def debug_name(self):
        return self.name('debug_file')

    def uuid(self):
        """Mach-O: the code id if there is one (it must be a uuid), else the debug id's uuid."""
        it = self.it
        c = self.code_id()
        if c is not None:
            from engine.std import parse
            r = parse(it, c, Ty('Uuid'))
            return r.fields[0] if r.variant == 'Ok' else None
        d = self.debug_id()
        return None if d is None else Term('uuid', (d,), Ty('Uuid'))


def safe_name(it, s):
    b = it.ctx.sstr(Term('basename', (it.freeze(s),), T_STR))
    for bad in ('', '.', '..'):
        if it.ctx.str_eq(b, Str(bad)):
            return None
    if not it.ctx.lt(it.ctx.str_len(b), 256):
        return None
    if not str_all(it, b, complement(CONTROL)):
        return None
    return b


def simple(u):
    return Str((Term('uuid_simple', (u,), T_STR),))


def breakpad_id(d):
    return Str((Term('breakpad', (d,), T_STR),))


def two_level(it, s):
    """aa/bbbb.., or None for identifiers that are too short"""
    r = it.ctx.split_at(s, 2)
    return None if r is None else S(r[0], '/', r[1])


def gdb(i):
    c = i.code_id()
    return None if c is None else two_level(i.it, c)


def lldb(i):
    u = i.uuid()
    if u is None:
        return None
    x = upper(simple(u)).parts[0]
    out = []
    for k in range(5):
        out += [mk_slice(x, 4 * k, 4 * k + 4), '/']
    return S(*out, mk_slice(x, 20, 32))


def pdb(i, ssqp):
    it = i.it
    n = i.debug_name()
    if n is None:
        return None
    d = i.debug_id()
    if d is None:
        return None
    sig = simple(Term('uuid', (d,), Ty('Uuid')))
    if i.kind() == 'PeDotnet':
        age = Str('ffffffff')
    else:
        age = Str((Term('hex', (Term('appendix', (d,), Ty('u32')),), T_STR),))
    if ssqp:
        n = lower(n)
        return S(n, '/', sig, upper(age), '/', n)
    return S(n, '/', upper(sig), age, '/', n)


def pe(i, ssqp):
    n = i.code_name()
    if n is None:
        return None
    c = i.code_id()
    if c is None:
        return None
    if ssqp:
        n = lower(n)
        return S(n, '/', c, '/', n)
    r = i.it.ctx.split_at(c, 8)
    if r is None:
        return None
    return S(n, '/', upper(r[0]), r[1], '/', n)


def breakpad(i):
    it = i.it
    if i.kind() == 'Wasm':
        return None
    n = i.debug_name()
    if n is None:
        return None
    d = i.debug_id()
    if d is None:
        return None
    base = n
    for e in ('.exe', '.dll', '.pdb'):
        s = it.ctx.ends_with(n, e)
        if s is not None:
            base = s
            break
    return S(n, '/', breakpad_id(d), '/', base, '.sym')


def cut_ext(it, p):
    r = it.ctx.rfind(p, '.')
    return p if r is None else r[0]


def some_list(x):
    return [] if x is None else [x]


def add_suffix(p, s):
    return None if p is None else S(p, s)


def native(ft, i):
    it = i.it
    if ft in ('ElfCode', 'WasmCode'):
        return some_list(gdb(i))
    if ft in ('ElfDebug', 'WasmDebug'):
        return some_list(add_suffix(gdb(i), '.debug'))
    if ft == 'MachCode':
        return some_list(add_suffix(lldb(i), '.app'))
    if ft == 'MachDebug':
        return some_list(lldb(i))
    if ft in ('Pdb', 'PortablePdb'):
        return some_list(pdb(i, False))
    if ft == 'Pe':
        return some_list(pe(i, False))
    if ft == 'Breakpad':
        return some_list(breakpad(i))
    if ft == 'SourceBundle':
        k = i.kind()
        main = {'Pe': lambda: pdb(i, False), 'PeDotnet': lambda: pdb(i, False), 'Macho': lambda: lldb(i), 'Elf': lambda: gdb(i), 'Wasm': lambda: gdb(i),
                'Unknown': lambda: None}[k]()
        if main is None:
            return []
        if k in ('Pe', 'PeDotnet'):
            main = cut_ext(it, main)
        main = S(main, '.src.zip')
        out = []
        b = breakpad(i)
        if b is not None:
            b = S(it.ctx.ends_with(b, '.sym'), '.src.zip')
            if not it.ctx.str_eq(b, main):
                out.append(b)
        return out + [main]
    return []


def symstore(ft, i, ssqp):
    it = i.it
    if ft == 'ElfCode':
        c = i.code_id()
        if c is None:
            return None
        n = i.code_name()
        if n is None:
            return None
        n = lower(n) if ssqp else n
        return S(n, '/elf-buildid-', c, '/', n)
    if ft == 'ElfDebug':
        c = i.code_id()
        return None if c is None else S('_.debug/elf-buildid-sym-', c, '/_.debug')
    if ft == 'MachCode':
        n = i.code_name()
        if n is None:
            return None
        u = i.uuid()
        if u is None:
            return None
        n = lower(n) if ssqp else n
        return S(n, '/mach-uuid-', simple(u), '/', n)
    if ft == 'MachDebug':
        u = i.uuid()
        return None if u is None else S('_.dwarf/mach-uuid-sym-', simple(u), '/_.dwarf')
    if ft in ('Pdb', 'PortablePdb'):
        return pdb(i, ssqp)
    if ft == 'Pe':
        return pe(i, ssqp)
    if ft == 'SourceBundle':
        if i.kind() != 'Pe':
            return None
        p = pdb(i, ssqp)
        return None if p is None else S(cut_ext(it, p), '.src.zip')
    return None


def index2(it, p):
    if p is None:
        return None
    # an additional folder named like the first two characters
    r = it.ctx.split_at(p, 2)
    if r is None or not it.ctx.boundary(p, 2):
        return p
    pre = it.ctx.norm(r[0])
    if it.ctx.ends_with(pre, '/') is not None or it.ctx.ends_with(pre, '.') is not None:
        pre = it.ctx.split_at(pre, 1)[0]
    return S(pre, '/', p)


def debuginfod(ft, i):
    sfx = {'ElfCode': '/executable', 'ElfDebug': '/debuginfo'}.get(ft)
    if sfx is None:
        return None
    c = i.code_id()
    return None if c is None else S(c, sfx)


UNIFIED = {'ElfCode': 'executable', 'MachCode': 'executable', 'Pe': 'executable', 'WasmCode': 'executable', 'ElfDebug': 'debuginfo', 'MachDebug': 'debuginfo',
           'Pdb': 'debuginfo', 'WasmDebug': 'debuginfo', 'PortablePdb': 'debuginfo', 'Breakpad': 'breakpad', 'SourceBundle': 'sourcebundle', 'UuidMap': 'uuidmap',
           'BcSymbolMap': 'bcsymbolmap', 'Il2cpp': 'il2cpp', 'Proguard': 'proguard'}


def unified_id(ft, i):
    if ft in ('SourceBundle', 'Breakpad', 'Il2cpp'):
        k = i.kind()
        ft = {'Elf': 'ElfCode', 'Macho': 'MachCode', 'Pe': 'Pe', 'Wasm': 'WasmCode', 'PeDotnet': 'PortablePdb'}.get(k)
        if ft is None:
            return None
    if ft in ('Pe', 'Pdb', 'PortablePdb'):
        d = i.debug_id()
        return None if d is None else lower(breakpad_id(d))
    if ft in ('ElfCode', 'ElfDebug'):
        return i.code_id()
    if ft == 'Proguard':
        return None
    c = i.code_id()
    if c is not None:
        return c
    d = i.debug_id()
    return None if d is None else simple(Term('uuid', (d,), Ty('Uuid')))


def unified(ft, i):
    x = unified_id(ft, i)
    if x is None:
        return None
    p = two_level(i.it, x)
    return None if p is None else S(p, '/', UNIFIED[ft])


def slashsymbols(i):
    c = i.code_id()
    if c is None:
        return None
    n = i.code_name()
    return None if n is None else S(n, '/', c, '/symbols')


def expected(it, layout, ft, ident):
    """Uncased, uncompressed paths."""
    i = Ident(it, ident)
    if layout == 'Native':
        return native(ft, i)
    if layout == 'Symstore':
        return some_list(symstore(ft, i, False))
    if layout == 'Ssqp':
        return some_list(symstore(ft, i, True))
    if layout == 'SymstoreIndex2':
        return some_list(index2(it, symstore(ft, i, False)))
    if layout == 'Debuginfod':
        return some_list(debuginfod(ft, i))
    if layout == 'Unified':
        return some_list(unified(ft, i))
    if layout == 'SlashSymbols':
        return some_list(slashsymbols(i))
    raise Unsupported(f'unknown layout {layout}')


def compressed(it, p):
    c = Native('call')
    p = it.ctx.norm(p)
    from engine.std import BUILTIN, Call, temp_ref
    cc = Call()
    cc.it, cc.recv, cc.v, cc.args, cc.targs, cc.expect = it, temp_ref(p), p, [], (), None
    r = BUILTIN[('str', 'pop')](cc)
    return S(deref(cc.recv), '_')


def cased(it, p, casing):
    return {'Default': lambda x: x, 'Lowercase': alower, 'Uppercase': aupper}[casing](it.ctx.norm(p))


def full_list(it, layout, ft, casing, ident):
    """In the order in which the locations are tried: later entries of the native list first."""
    out = []
    for p in reversed(expected(it, layout, ft, ident)):
        p = cased(it, p, casing)
        out.append(p)
        if ft in ('Pdb', 'Pe'):
            out.append(compressed(it, p))
    return out


def s01(c):
    def spec(it, a, out):
        layout, ft, ident = a
        if out.panic:
            return 'panic', f'looking up a path panics: {out.panic}'
        l = variant(it, it.field(layout, 'ty'))
        f = variant(it, ft)
        cs = variant(it, it.field(layout, 'casing'))
        got = [strval(it, x) for x in items(it, out.value)]
        want = full_list(it, l, f, cs, ident)
        if f in ('Pdb', 'Pe'):
            # compressed variants are the subject of S02
            want = want[0::2]
            got = [g for g in got if any(it.same(g, w) for w in want) or not (g.parts and isinstance(g.parts[-1], str) and g.parts[-1].endswith('_'))]
        if not same_set(it, got, want):
            return f'{l}/{f}', f'layout {l}, file type {f}: paths {showl(got)}, the published schema prescribes {showl(want)}'
    c.product('lookup paths', P + 'get_directory_paths', spec, floor=700)
    c.assumptions.append('CodeId renders as lowercase hexadecimal digits; DebugId::breakpad renders uuid and age in hexadecimal; split_path returns the part after the last / or \\.')


def location_iter(it, f, a):
    """All locations in the order SourceLocationIter yields them."""
    n = it.w.fn('symbolicator_sources::remotefile::SourceLocationIter::next')
    box = it.std.temp_ref(it.call_def(f, a))
    out = []
    while True:
        r = it.force(it.call_def(n, [box]))
        if r.variant == 'None':
            return Vec(out)
        out.append(r.fields[0])
        if len(out) > 40:
            raise Unsupported('location iterator does not end')


def s02(c):
    def given(it):
        return {'filetypes': Vec([Term('filetype', (), Ty('symbolicator_sources::filetype::FileType'))]), 'index': none()}

    def spec(it, a, out):
        config, fts, index, ident = a
        if out.panic:
            return 'panic', f'enumerating locations panics: {out.panic}'
        layout = it.field(config, 'layout')
        l = variant(it, it.field(layout, 'ty'))
        f = variant(it, fts.items[0])
        got = [strval(it, it.field(x, '0')) for x in items(it, out.value)]
        if not got:
            return None
        cs = variant(it, it.field(layout, 'casing'))
        want = full_list(it, l, f, cs, ident)
        if not same_list(it, got, want):
            return f'{f}/{cs}', f'layout {l}, file type {f}, casing {cs}: locations are tried as {showl(got)}, expected {showl(want)}'
    c.product('location order', 'symbolicator_sources::remotefile::SourceLocationIter::new', spec, given=given, run=location_iter, floor=700,
              opaque={'SourceFilters::is_allowed': lambda it, a: True})


def tainted(p):
    """Names from reports that appear in a template without being reduced to a basename."""
    out = []

    def rec(t, inside):
        if isinstance(t, Str):
            for x in t.parts:
                rec(x, inside)
            return
        if isinstance(t, tuple) and not isinstance(t, Ty):
            for x in t:
                rec(x, inside)
            return
        if not isinstance(t, Term):
            return
        if t.op == 'basename':
            inside = True
        if t.op == 'field' and t.args[1] in ('code_file', 'debug_file') and not inside:
            out.append(t)
        for x in t.args:
            rec(x, inside)
    rec(p, False)
    return out


def s08(c):
    def names(t, acc):
        if isinstance(t, Str):
            for x in t.parts:
                names(x, acc)
        elif isinstance(t, tuple) and not isinstance(t, Ty):
            for x in t:
                names(x, acc)
        elif isinstance(t, Term):
            if t.op == 'field' and t.args[1] in ('code_file', 'debug_file'):
                acc.add(t)
            for x in t.args:
                names(x, acc)
        return acc

    def spec(it, a, out):
        layout, ft, ident = a
        if out.panic:
            return 'panic', f'looking up a path panics: {out.panic}'
        for p in items(it, out.value):
            p = strval(it, p)
            bad = tainted(p)
            if bad:
                return 'whole name', f'{show(bad[0])} enters the path {show(p)} as a whole, not only its last component'
            for n in names(p, set()):
                v = Term('some', (n,), T_STR)
                if safe_name(it, it.ctx.sstr(v)) is None:
                    return 'unsafe name', f'{show(n)} enters the path {show(p)} although its last component is empty, a dot reference, too long or has control characters'
    c.product('names in lookup paths', P + 'get_directory_paths', spec, floor=700)

    def run(it, f, a):
        return it.call_def(f, a)

    for m in ('validated_code_file_basename', 'validated_debug_file_basename'):
        field = 'code_file' if 'code' in m else 'debug_file'

        def spec2(it, a, out, field=field):
            if out.panic:
                return 'panic', out.panic
            o = it.force(out.value)
            x = fopt(it, a[0], field)
            want = None if x is None else safe_name(it, strval(it, x))
            got = strval(it, o.fields[0]) if o.variant == 'Some' else None
            if (got is None) != (want is None) or (want is not None and not it.eq(got, want)):
                return f'the validated name of {field} is {show(o)}, expected {show(want) if want is not None else "none"}'
        c.product(f'validated name of {field}', 'symbolicator_sources::types::ObjectId::' + m, spec2)
