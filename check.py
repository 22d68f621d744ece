#!/usr/bin/env python3
"""check.py <property id> [--root DIR]: decide one property from the sources."""
import importlib
import os
import pkgutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa import core, rules  # noqa: E402


def all_rules():
    out = {}
    for m in pkgutil.iter_modules(rules.__path__):
        mod = importlib.import_module('sa.rules.' + m.name)
        for r in [getattr(mod, 'RULE', None)] + list(getattr(mod, 'RULES', ())):
            if r is not None:
                out[r.pid] = r
    return out


def main(argv):
    root = '/repo'
    if '--root' in argv:
        i = argv.index('--root')
        root = argv[i + 1]
        del argv[i:i + 2]
    if argv == ['--parse-only']:
        p, cg = core.load(root)
        print('%d modules, %d functions parsed' % (len(p.modules), len(p.funcs)))
        return 0
    rs = all_rules()
    ids = sorted(rs) if argv == ['all'] else argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = 0
    for i in ids:
        if i not in rs:
            print('no rule for', i)
            return 3
        r = core.main_check(rs[i], root, tier, seed)
        rc = r if r and rc in (0, 1) and (r == 3 or rc == 0) else rc
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
