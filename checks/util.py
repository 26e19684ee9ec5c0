"""Helpers for writing specifications over abstract values."""
from engine.dom import *
from engine.std import default_of, path_join, display
from engine.strm import part_all, str_all, complement, REPS, CH_PREDS

CONTROL = ''.join(c for c in REPS if CH_PREDS['is_control'](c))


def fopt(it, v, name):
    """Option field of a value: the payload or None."""
    o = it.force(it.field(v, name))
    return o.fields[0] if o.variant == 'Some' else None


def variant(it, v):
    e = it.force(v)
    return e.variant


def strval(it, v):
    return it.ctx.sstr(deref(v))


def lower(s):
    return case_str('lower', s)


def upper(s):
    return case_str('upper', s)


def alower(s):
    return case_str('alower', s)


def aupper(s):
    return case_str('aupper', s)


def items(it, v):
    v = it.force(v)
    if isinstance(v, Iter):
        return [deref(x) for x in v.materialize()]
    if isinstance(v, Vec):
        return [deref(x) for x in v.items]
    from engine.std import iterate
    return [deref(x) for x in iterate(it, v)]


def same_list(it, xs, ys):
    return len(xs) == len(ys) and all(it.eq(x, y) for x, y in zip(xs, ys))


def same_set(it, xs, ys):
    """Equal as multisets."""
    ys = list(ys)
    if len(xs) != len(ys):
        return False
    for x in xs:
        for i, y in enumerate(ys):
            if it.same(x, y):
                break
        else:
            for i, y in enumerate(ys):
                if it.eq(x, y):
                    break
            else:
                return False
        ys.pop(i)
    return True


def showl(xs):
    return '[' + ', '.join(show(x) for x in xs) + ']'
