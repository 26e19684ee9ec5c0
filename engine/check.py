"""Running the analyses of one property and reporting."""
import json
import os
import sys
import time
import traceback
from .dom import *
from .interp import Interp, Frame
from .syntax import World, AnchorMissing

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
_WORLD = None


def world():
    global _WORLD
    if _WORLD is None:
        _WORLD = World()
    return _WORLD


class Out:
    """Outcome of the analysed function on one partition."""

    def __init__(self, value=None, panic=None):
        self.value = value
        self.panic = panic

    def __repr__(self):
        return f'panic({self.panic})' if self.panic else show(self.value)


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.violations = {}      # key -> detail
        self.oblig = []           # {name, ...counts}
        self.fns = set()
        self.samples = []
        self.assumptions = []
        self.deadline = None
        self.wanted = None        # keys of messages kept, None for all
        try:
            self.w = world()
        except Exception as e:
            self.w = None
            self.bad('source', f'the source cannot be read: {e}')

    # ------------------------------------------------------------------ reporting
    def bad(self, key, detail, site=None, path=None):
        """Record a violation; keys identify the construct, never a line number."""
        v = self.violations.setdefault(key, {'key': key, 'detail': detail, 'site': site, 'path': path, 'count': 0})
        v['count'] += 1

    def rule(self, name, cond, detail, site=None):
        """One obligation of a syntactic or type-based rule."""
        o = self.obl(name)
        o['sites'] = o.get('sites', 0) + 1
        if site:
            self.sample(f'{name}: {site}')
        if not cond:
            self.bad(name, detail, site)
        return cond

    def obl(self, name, **kw):
        for o in self.oblig:
            if o['name'] == name:
                return o
        o = {'name': name, **kw}
        self.oblig.append(o)
        return o

    def floor(self, name, n, least):
        """A count the analysis must reach, otherwise it has lost its subject."""
        self.obl('floor: ' + name)['count'] = n
        if n < least:
            self.bad('floor: ' + name, f'only {n} of at least {least} found: the analysis no longer sees its subject')

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:600])

    def section(self, name, f):
        """Runs a part of the check; what it cannot analyse is a violation of that part."""
        try:
            f()
        except AnchorMissing as e:
            self.bad(f'{name}: anchor', f'cannot be analysed: {e}')
        except Unsupported as e:
            self.bad(f'{name}: unsupported', f'cannot be analysed: {e}')
        except Exception as e:
            tb = traceback.format_exc().strip().split('\n')
            self.bad(f'{name}: error', f'cannot be analysed: {type(e).__name__}: {e} at {tb[-3].strip() if len(tb) > 2 else ""}')
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()

    # ----------------------------------------------------------------- products
    def fn(self, a):
        return self.w.fn(a) if isinstance(a, str) else a

    def args(self, it, f, given=None):
        """Arguments of f as terms named like its parameters."""
        given = given or {}
        fr = it.impl_frame(f, given.get('Self'))
        out = []
        if f.node['self']:
            if 'self' in given:
                out.append(given['self'])
            else:
                out.append(Term('self', (), fr.selfty))
        for i, p in enumerate(f.node['params']):
            n = p['pat'].get('n') or p['pat'].get('name') or f'arg{i}'
            if i in given:
                out.append(given[i])
            elif n in given:
                out.append(given[n])
            else:
                out.append(Term(n.lstrip('_'), (), it.ty(p['ty'], fr)))
        return out

    def product(self, name, fn, spec, given=None, k=2, limit=60000, models=None, mmodels=None, sigs=None, opaque=None, targs=(),
                setup=None, panics='spec', run=None, floor=1, boundloop=None):
        """Analyses fn on every partition of its inputs and asks the specification about each.

        spec(it, args, out) returns None (satisfied), a message, or (key, message)."""
        def go():
            f = self.fn(fn) if fn is not None else None
            o = self.obl(name, function=f.id if f else None, partitions=0)

            def once(ctx):
                ctx.k = k
                it = Interp(self.w, ctx, models, mmodels, sigs, opaque)
                if boundloop:
                    it.loop_limit = boundloop
                if setup:
                    setup(it)
                g = given(it) if callable(given) else given
                a = self.args(it, f, g) if f is not None else g
                ctx.input = [it.freeze_arg(x) for x in a] if False else None
                try:
                    if run is not None:
                        v = run(it, f, a)
                    else:
                        v = it.call_def(f, a, targs=targs)
                    if isinstance(v, Future):
                        v = it.await_value(v)
                    out = Out(deref(v))
                except RustPanic as e:
                    out = Out(panic=f'{e.msg}' + (f' in {e.where[0]}' if e.where else ''))
                try:
                    msg = spec(it, a, out)
                except RustPanic as e:
                    msg = ('panic', f'panic while comparing: {e.msg}')
                return out, msg
            n = 0
            for ctx, (out, msg) in explore(once, limit):
                n += 1
                self.fns |= ctx.fns
                for s in (msg if isinstance(msg, list) else [msg]):
                    if s is None:
                        continue
                    key, text = s if isinstance(s, tuple) else ('result', s)
                    if self.wanted and key not in self.wanted and key != 'panic':
                        continue            # another property's concern
                    self.bad(f'{name}: {key}', text, f.id if f else name, self.describe(ctx))
                if n in (1, 7, 40):
                    self.sample(f'{name}: if {self.describe(ctx, 6)} then {out!r}'[:500])
                if self.deadline and time.time() > self.deadline:
                    break
            o['partitions'] += n
            if n < floor:
                self.bad(f'{name}: floor', f'only {n} of at least {floor} partitions: the analysis no longer sees its subject')
        self.section(name, go)

    @staticmethod
    def describe(ctx, n=40):
        out = []
        for k, v in ctx.path[-n:] if n else ctx.path:
            if isinstance(k, tuple):
                k = k[0] + '(' + ', '.join(show(x) if not isinstance(x, str) or len(x) < 40 else '..' for x in k[1:]) + ')'
            else:
                k = show(k) if not isinstance(k, str) else k
            out.append(f'{k} = {v}' if not isinstance(v, bool) else (k if v else f'not {k}'))
        return ' and '.join(out) or 'always'

    # -------------------------------------------------------------------- finish
    def finish(self):
        known = load_known().get(self.prop, [])
        new, old = [], []
        for v in self.violations.values():
            hit = next((k for k in known if k['key'] == v['key'] and (not k.get('match') or k['match'] in (str(v['detail']) + ' ' + str(v['path'])))), None)
            if hit:
                old.append((v, hit))
            else:
                new.append(v)
        parts = sum(o.get('partitions', 0) for o in self.oblig)
        sites = sum(o.get('sites', 0) for o in self.oblig)
        failed = {v['key'].split(':')[0] for v in self.violations.values()}
        cov = {
            'explanation': 'Static analysis of the syntax trees of the workspace: abstract interpretation of the functions listed, trace-partitioned on the facts '
                           'they depend on, each partition compared with the rule of the property; and rules over resolved items, call sites and effect orders.',
            'functions_analysed': len(self.fns), 'functions': sorted(self.fns)[:400], 'partitions': parts, 'sites': sites,
            'obligations': len(self.oblig), 'obligations_discharged': sum(1 for o in self.oblig if o['name'] not in failed),
            'rules': self.oblig, 'samples': self.samples,
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - self.t0, 3),
              'assumptions': self.assumptions, 'violations': [{k: (v if isinstance(v, (int, type(None))) else str(v)[:3000]) for k, v in x.items()} for x in new]}
        ed = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
        os.makedirs(ed, exist_ok=True)
        with open(os.path.join(ed, self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        printed = set()
        for v, h in old:
            if h['key'] not in printed:
                printed.add(h['key'])
                print(f"KNOWN-FINDING: property={self.prop} {h['what']}")
        print(f"{self.prop}: {len(self.oblig)} rules, {parts} partitions, {sites} sites, {len(self.fns)} functions, {len(new)} violations, {time.time() - self.t0:.1f} s")
        if new:
            rp = os.path.join(ed, self.prop + '.replay.json')
            with open(rp, 'w') as fh:
                json.dump({'property': self.prop, 'rerun': f'python3 {ROOT}/run.py {self.prop}', 'violations': ev['violations']}, fh, indent=1)
            for v in new[:20]:
                print(f"  violation: {v['key']} [{v['site']}] x{v['count']}: {str(v['detail'])[:700]}")
                if v['path']:
                    print(f"    when {str(v['path'])[:900]}")
            print(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        return 0


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    out = {}
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            out.setdefault(e['property'], []).append(e)
    return out
