"""Ownership of values whose end has an effect: scopes, async blocks and calls own what is bound in or moved into them.

Only active in products that set `it.drops`. An ownable value is a native value with an `on_drop` attribute or a value of a workspace
type that implements Drop. It is dropped when the scope that binds it last ends, when the async block that mentions it ends, when it is
passed to `drop`, and when a statement discards it."""
from .dom import *


class Drops:
    def __init__(self, it):
        self.it = it
        self.owner = {}                 # id -> (value, owner or None)
        self.gone = []                  # ids in order
        self.stack = []

    def has(self, v):
        if isinstance(v, Native):
            return hasattr(v, 'on_drop')
        return isinstance(v, Struct) and self.it.w.methods.get((v.ty, 'drop')) is not None

    def own(self, v, who):
        if self.has(v):
            self.owner.pop(id(v), None)     # keeps the order of the last move
            self.owner[id(v)] = (v, who)
        elif isinstance(v, (Tup, Vec)):
            for x in v.items:
                self.own(x, who)
        elif isinstance(v, Enum):
            for x in (v.fields.values() if isinstance(v.fields, dict) else v.fields or []):
                self.own(x, who)

    def drop(self, v):
        if not self.has(v):
            return
        if id(v) in self.gone:
            return
        self.gone.append(id(v))
        self.owner[id(v)] = (v, self)
        if isinstance(v, Native):
            v.on_drop(self.it)
        else:
            self.it.call_def(self.it.w.methods[(v.ty, 'drop')][0][1], [self.it.std.temp_ref(v)])

    def inside(self, v, seen=0):
        """ids of the ownable values in a result"""
        v = v if not isinstance(v, Ref) else None
        if v is None or seen > 4:
            return set()
        out = {id(v)} if self.has(v) else set()
        if isinstance(v, (Struct, Enum)):
            for x in (v.fields.values() if isinstance(v.fields, dict) else v.fields or []):
                out |= self.inside(x, seen + 1)
        elif isinstance(v, (Tup, Vec)):
            for x in v.items:
                out |= self.inside(x, seen + 1)
        elif isinstance(v, Future):
            out |= {i for i, (_, w) in self.owner.items() if w is v}
        return out

    def end(self, who, result=None):
        keep = self.inside(result)
        for v, w in reversed(list(self.owner.values())):
            if w is who and id(v) not in keep:
                self.drop(v)

    def capture(self, node, env, future):
        names = set()

        def walk(x):
            if isinstance(x, dict):
                s = x.get('segs')
                if s and len(s) == 1:
                    names.add(s[0][0])
                if x.get('k') == 'struct':
                    for f in x.get('fields', []):
                        if isinstance(f, (list, tuple)) and f and isinstance(f[0], str):
                            names.add(f[0])
                for y in x.values():
                    walk(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
        walk(node['stmts'])
        for n in sorted(names):
            c = env.find(n)
            if c is not None and not isinstance(c.v, Ref):
                self.own(c.v, future)

    def drop_future(self, f):
        """A future that is dropped drops what it owns, and the futures it holds."""
        for v, w in reversed(list(self.owner.values())):
            if isinstance(w, Future) or w is None:
                self.drop(v)
