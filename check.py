#!/usr/bin/env python3
"""check.py check PROP [quick|thorough]   seed from VERIF_SEED (default 1)
   check.py replay FILE                   exit 1 when the violation reproduces
   check.py case PROP INDEX               run one generated case, print it"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from dst import core  # noqa: E402


def main(a):
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if a[0] == 'check':
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
        n = int(os.environ['DST_COUNT']) if 'DST_COUNT' in os.environ else None
        return core.check(a[1], tier, seed, n)
    if a[0] == 'replay':
        with open(a[1]) as f:
            prop = json.load(f)['property']
        core.build(getattr(core.load(prop), 'VARIANTS', ['compact', 'fatty']))
        ok, f = core.replay(a[1])
        if ok and f:
            return 1
        return 0 if not f and ok else 4
    if a[0] == 'case':
        mod = core.load(a[1])
        core.build(getattr(mod, 'VARIANTS', ['compact', 'fatty']))
        c = mod.gen(core.case_rng(a[1], seed, int(a[2])), int(a[2]))
        print(json.dumps(c, indent=1)[:8000])
        f, ctx = core.execute(mod, c)
        print(f, dict(ctx.stats), ctx.runs, ctx.h.hexdigest())
        return 1 if f else 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
