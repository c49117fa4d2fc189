#!/usr/bin/env python3
"""check.py <property id> : decide one property on /repo's current source."""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
sys.setrecursionlimit(20000)
import common


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a.startswith('--tier='):
            tier = a.split('=')[1]
    import checks
    mod, fn, level = checks.TABLE[pid]
    try:
        R = common.Report(pid, tier)
        m = importlib.import_module('checks.' + mod)
        expl = getattr(m, fn)(R)
        rc = common.finish(R, level, expl)
    except common.Broken as e:
        print('%s: analysis broken: %s' % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
