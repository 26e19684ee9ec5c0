"""Loads the syntax trees of the workspace's crates (from rsast) and resolves names in them."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
RSAST = os.path.join(VERIF, 'tools/rsast/target/release/rsast')

CRATES = {
    'symbolicator_sources': 'symbolicator-sources/src/lib.rs',
    'symbolicator_service': 'symbolicator-service/src/lib.rs',
    'symbolicator_native': 'symbolicator-native/src/lib.rs',
    'symbolicator_js': 'symbolicator-js/src/lib.rs',
    'symbolicator_proguard': 'symbolicator-proguard/src/lib.rs',
    'symbolicator': 'symbolicator/src/main.rs',
    'symsorter': 'symsorter/src/main.rs',
    'wasm_split': 'wasm-split/src/main.rs',
    'symbolicli': 'symbolicli/src/main.rs',
    'symbolicator_crash': 'symbolicator-crash/src/lib.rs',
    'symbolicator_stress': 'symbolicator-stress/src/main.rs',
    'process_event': 'process-event/src/main.rs',
}


class AnchorMissing(Exception):
    pass


class Def:
    __slots__ = ('kind', 'name', 'node', 'module', 'id', 'impl', 'extra')

    def __init__(self, kind, name, node, module, impl=None):
        self.kind = kind
        self.name = name
        self.node = node
        self.module = module
        self.impl = impl
        self.extra = None
        self.id = (module.id if module else '') + '::' + name

    def __repr__(self):
        return f'<{self.kind} {self.id}>'

    @property
    def file(self):
        return self.module.crate.files[self.node['file']] if 'file' in self.node else '?'

    def loc(self):
        f = self.file
        if f.startswith(REPO + '/'):
            f = f[len(REPO) + 1:]
        return f"{f}:{self.node.get('line', '?')}"


class Impl:
    __slots__ = ('node', 'module', 'selfty', 'trait', 'fns', 'consts', 'types', 'self_id', 'tparams', 'trait_def', 'trait_args')

    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.fns = {}
        self.consts = {}
        self.types = {}


class Module:
    def __init__(self, crate, path, parent=None, block=False):
        self.crate = crate
        self.path = path
        self.id = '::'.join((crate.name,) + path)
        self.parent = parent
        self.block = block          # anonymous block scope: lookups fall through to the parent
        self.types = {}
        self.values = {}
        self.uses = {}
        self.globs = []
        self._cache = {}

    def real(self):
        m = self
        while m.block:
            m = m.parent
        return m


class Crate:
    def __init__(self, world, name, data):
        self.world = world
        self.name = name
        self.files = data['files']
        self.errors = data['errors']
        self.root = Module(self, ())
        self.item_macros = []
        self.load(self.root, data['items'])

    def load(self, mod, items):
        for it in items:
            self.add(mod, it)

    def add(self, mod, it):
        k = it['k']
        w = self.world
        if k == 'fn':
            mod.values[it['name']] = Def('fn', it['name'], it, mod)
        elif k in ('struct', 'enum', 'trait', 'type'):
            d = Def(k, it['name'], it, mod)
            mod.types[it['name']] = d
            w.typedefs[d.id] = d
            if k == 'struct' and it['kind'] in ('tuple', 'unit'):
                mod.values[it['name']] = Def('ctor', it['name'], it, mod)
            if k == 'trait':
                for f in it['items']:
                    if f['k'] == 'fn':
                        d.extra = d.extra or {}
                        d.extra[f['name']] = Def('fn', it['name'] + '::' + f['name'], f, mod)
        elif k in ('const', 'static'):
            mod.values[it['name']] = Def('const', it['name'], it, mod)
        elif k == 'mod':
            m = Module(self, mod.path + (it['name'],), mod)
            d = Def('mod', it['name'], it, mod)
            d.extra = m
            mod.types[it['name']] = d
            self.load(m, it['items'])
        elif k == 'use':
            for u in it['uses']:
                if u['as'] == '*':
                    mod.globs.append(u['p'])
                else:
                    mod.uses[u['as']] = u['p']
        elif k == 'impl':
            w.pending_impls.append((mod, it))
        elif k == 'item_macro':
            self.item_macros.append((mod, it))


def ensure_dumper():
    """Builds the syntax tree dumper when setup_cmd has not left it here."""
    src = os.path.join(VERIF, 'tools/rsast')
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in ('Cargo.toml', 'src/main.rs'))
    if not os.path.exists(RSAST) or os.path.getmtime(RSAST) < newest:
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'], cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(RSAST):
            raise AnchorMissing(f'cannot build rsast: {r.stdout.decode()[-400:]}')


class World:
    def __init__(self, crates=None):
        ensure_dumper()
        self.typedefs = {}
        self.pending_impls = []
        self.crates = {}
        self.impls = []
        self.methods = {}       # (self_id, method) -> [(Impl, Def)]
        self.by_trait = {}      # trait id/name -> [Impl]
        names = list(crates or CRATES)

        def run(n):
            p = os.path.join(REPO, 'crates', CRATES[n])
            if not os.path.exists(p):
                raise AnchorMissing(f'crate root {p} is missing')
            out = subprocess.run([RSAST, p], stdout=subprocess.PIPE, check=True).stdout
            return n, json.loads(out)[0]
        with ThreadPoolExecutor(8) as ex:
            datas = list(ex.map(run, names))
        for n, d in datas:
            if d['errors']:
                raise AnchorMissing(f'cannot parse crate {n}: {d["errors"][:3]}')
            self.crates[n] = Crate(self, n, d)
        self.flush_impls()

    def flush_impls(self):
        pend, self.pending_impls = self.pending_impls, []
        for mod, it in pend:
            self.add_impl(mod, it)

    def add_impl(self, mod, it):
        im = Impl(it, mod)
        im.tparams = [g['n'] for g in it.get('generics', []) if g.get('param')]
        st = it['self']
        while st['k'] == 'ref':
            st = st['t']
        im.selfty = st
        im.trait = None
        im.trait_def = None
        im.trait_args = []
        if it['trait']:
            segs = [s[0] for s in it['trait']['segs']]
            im.trait_args = it['trait']['segs'][-1][1]
            d = self.resolve(mod, segs, 'type')
            if isinstance(d, Def):
                im.trait = d.id
                im.trait_def = d
            else:
                im.trait = d[1][-1]
        sid = None
        if st['k'] == 'path':
            segs = [s[0] for s in st['p']['segs']]
            if len(segs) == 1 and segs[0] in im.tparams:
                sid = '*'
            else:
                d = self.resolve(mod, segs, 'type')
                n = 0
                while isinstance(d, Def) and d.kind == 'type' and n < 5:
                    t = d.node['ty']
                    n += 1
                    if t['k'] == 'path':
                        d = self.resolve(d.module, [s[0] for s in t['p']['segs']], 'type')
                    else:
                        break
                sid = d.id if isinstance(d, Def) else d[1][-1]
        elif st['k'] in ('dyn', 'impl'):
            sid = 'dyn'
        im.self_id = sid
        for f in it['items']:
            if f['k'] == 'fn':
                nm = (sid or '?').split('::')[-1] + '::' + f['name']
                d = Def('fn', nm, f, mod, impl=im)
                im.fns[f['name']] = d
                self.methods.setdefault((sid, f['name']), []).append((im, d))
            elif f['k'] == 'const':
                im.consts[f['name']] = Def('const', (sid or '?').split('::')[-1] + '::' + f['name'], f, mod, impl=im)
            elif f['k'] == 'type':
                im.types[f['name']] = f['ty']
        self.impls.append(im)
        if im.trait:
            self.by_trait.setdefault(im.trait, []).append(im)

    # ---- name resolution -------------------------------------------------
    def lookup(self, mod, name, ns, seen=None):
        """Name in a module scope (definitions, imports, globs)."""
        seen = seen if seen is not None else set()
        key = (mod.id, id(mod), name, ns)
        if key in seen:
            return None
        seen.add(key)
        tbl = mod.types if ns == 'type' else mod.values
        if name in tbl:
            return tbl[name]
        if name in mod.uses:
            r = self.resolve(mod, mod.uses[name], ns, seen, from_use=True)
            if r is not None:
                return r
        for g in mod.globs:
            t = self.resolve(mod, g, 'type', seen, from_use=True)
            if isinstance(t, Def):
                if t.kind == 'mod':
                    r = self.lookup(t.extra, name, ns, seen)
                    if isinstance(r, Def):
                        return r
                elif t.kind == 'enum':
                    for v in t.node['variants']:
                        if v['name'] == name:
                            d = Def('variant', name, v, t.module)
                            d.extra = t
                            return d
        if mod.block:
            return self.lookup(mod.parent, name, ns, seen)
        return None

    def resolve(self, mod, segs, ns='value', seen=None, from_use=False):
        """Path to a Def, or ('ext', (segments...))."""
        segs = list(segs)
        if not segs:
            return None
        if seen is None:
            k = (tuple(segs), ns)
            c = mod._cache.get(k)
            if c is None:
                c = self._resolve(mod, segs, ns, set(), from_use)
                if not mod.block:
                    mod._cache[k] = c
            return c
        return self._resolve(mod, segs, ns, seen, from_use)

    def _resolve(self, mod, segs, ns, seen, from_use):
        first = segs[0]
        cur = None
        if first == 'crate':
            cur, rest = mod.crate.root, segs[1:]
        elif first == 'self':
            cur, rest = mod.real(), segs[1:]
        elif first == 'super':
            m = mod.real().parent
            rest = segs[1:]
            while rest and rest[0] == 'super':
                m = m.parent
                rest = rest[1:]
            cur = m
        else:
            want = ns if len(segs) == 1 else 'type'
            d = self.lookup(mod, first, want, seen)
            if d is None and first in self.crates:
                cur, rest = self.crates[first].root, segs[1:]
            elif d is None:
                return ('ext', tuple(segs))
            elif isinstance(d, tuple):
                return ('ext', d[1] + tuple(segs[1:]))
            else:
                return self.descend(d, segs[1:], ns, seen)
        if cur is None:
            return ('ext', tuple(segs))
        if not rest:
            d = Def('mod', cur.path[-1] if cur.path else cur.crate.name, {}, cur)
            d.extra = cur
            return d
        want = ns if len(rest) == 1 else 'type'
        d = self.lookup(cur, rest[0], want, seen)
        if d is None:
            return ('ext', tuple(segs))
        if isinstance(d, tuple):
            return ('ext', d[1] + tuple(rest[1:]))
        return self.descend(d, rest[1:], ns, seen)

    def descend(self, d, rest, ns, seen):
        i = 0
        while i < len(rest):
            name = rest[i]
            if d.kind == 'mod':
                want = ns if i == len(rest) - 1 else 'type'
                n = self.lookup(d.extra, name, want, seen)
                if n is None:
                    return ('ext', (d.extra.id,) + tuple(rest[i:]))
                if isinstance(n, tuple):
                    return ('ext', n[1] + tuple(rest[i + 1:]))
                d = n
            elif d.kind == 'enum':
                for v in d.node['variants']:
                    if v['name'] == name:
                        n = Def('variant', name, v, d.module)
                        n.extra = d
                        break
                else:
                    return ('assoc', d, tuple(rest[i:]))
                d = n
            elif d.kind == 'type':
                t = d.node['ty']
                if t['k'] == 'path':
                    r = self.resolve(d.module, [s[0] for s in t['p']['segs']], 'type')
                    if isinstance(r, Def):
                        d = r
                        continue
                    return ('ext', r[1] + tuple(rest[i:]))
                return ('assoc', d, tuple(rest[i:]))
            else:
                return ('assoc', d, tuple(rest[i:]))
            i += 1
        return d

    # ---- anchors -----------------------------------------------------------
    def fn(self, path):
        """Function by 'crate::mod::fn' or 'crate::mod::Type::method' (method search by type anywhere in the crate)."""
        segs = path.split('::')
        c = self.crates.get(segs[0])
        if c is None:
            raise AnchorMissing(f'crate {segs[0]} is not loaded')
        r = self.resolve(c.root, ['crate'] + segs[1:], 'value')
        if isinstance(r, Def) and r.kind == 'fn':
            return r
        ty = self.resolve(c.root, ['crate'] + segs[1:-1], 'type')
        if isinstance(ty, Def) and ty.kind in ('struct', 'enum'):
            c_ = self.methods.get((ty.id, segs[-1]))
            if c_:
                return c_[0][1]
        # moved elsewhere in the crate: accept a unique definition of that name
        cands = self.find_fns(segs[0], segs[-1], segs[-2] if len(segs) > 2 and segs[-2][:1].isupper() else None)
        if len(cands) == 1:
            return cands[0]
        raise AnchorMissing(f'function {path} not found ({len(cands)} candidates)')

    def find_fns(self, crate, name, ty=None):
        out = []
        c = self.crates[crate]
        if ty is None:
            def rec(m):
                if name in m.values and m.values[name].kind == 'fn':
                    out.append(m.values[name])
                for d in m.types.values():
                    if d.kind == 'mod':
                        rec(d.extra)
            rec(c.root)
        else:
            for im in self.impls:
                if im.module.crate is c and im.self_id and im.self_id.split('::')[-1] == ty and name in im.fns:
                    out.append(im.fns[name])
        return out

    def type(self, path):
        segs = path.split('::')
        c = self.crates.get(segs[0])
        r = self.resolve(c.root, ['crate'] + segs[1:], 'type')
        if isinstance(r, Def) and r.kind in ('struct', 'enum', 'trait', 'type'):
            return r
        c_ = [d for d in self.typedefs.values() if d.module.crate is c and d.name == segs[-1] and not d.module.block]
        if len(c_) == 1:
            return c_[0]
        raise AnchorMissing(f'type {path} not found')

    def const(self, path):
        segs = path.split('::')
        c = self.crates.get(segs[0])
        r = self.resolve(c.root, ['crate'] + segs[1:], 'value')
        if isinstance(r, Def) and r.kind == 'const':
            return r
        out = []

        def rec(m):
            if segs[-1] in m.values and m.values[segs[-1]].kind == 'const':
                out.append(m.values[segs[-1]])
            for d in m.types.values():
                if d.kind == 'mod':
                    rec(d.extra)
        rec(c.root)
        if len(out) == 1:
            return out[0]
        raise AnchorMissing(f'constant {path} not found')


def walk(n, f):
    """Pre-order over all dict nodes."""
    if isinstance(n, dict):
        f(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, f)
    elif isinstance(n, list):
        for v in n:
            walk(v, f)
