#!/usr/bin/env python3
"""check.py PXX [--tier quick|thorough]: decide one property from /repo's current source."""
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa.loader import Program, AnalysisError          # noqa: E402
from rules.base import Ctx, finish                     # noqa: E402


def main():
    if os.environ.get('PYTHONHASHSEED') != '0':     # the same report on every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
    t0 = time.time()
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    repo = os.environ.get('VERIF_REPO', '/repo')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from rules.registry import RULES, HISTORIES, LIVES
    modname, fn = RULES[prop]
    try:
        prog = Program(repo)
        if prog.errors:
            print('ERROR: cannot parse: ' + '; '.join(prog.errors))
            return 2
        ctx = Ctx(prog, prop)
        ctx.tier = tier
        getattr(importlib.import_module('rules.' + modname), fn)(ctx)
        if prop in HISTORIES:
            importlib.import_module('rules.p_hist').life(ctx, prop)
        if prop in LIVES:
            importlib.import_module('rules.p_life').life(ctx, prop)
        return finish(ctx, tier, seed, t0)
    except AnalysisError as e:
        print(f"ERROR: analysis broken: {e}")
        return 2


if __name__ == '__main__':
    sys.exit(main())
