#!/usr/bin/env python3
"""run.py PROPERTY [--thorough]: decides one property on /repo's current source."""
import importlib
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    from engine.check import Check
    from checks import REGISTRY
    rc = 0
    for p in args or sorted(REGISTRY):
        mod, f = REGISTRY[p]
        c = Check(p, tier)
        m = importlib.import_module('checks.' + mod)
        c.section(p, lambda: getattr(m, f)(c))
        rc |= c.finish()
    return rc


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.exit(res[0] if res else 1)
