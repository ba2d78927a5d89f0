#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current working tree."""
import sys, os, importlib, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.setrecursionlimit(30000)
import report, build

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    import registry
    mod, fn = registry.CHECKS[pid]
    r = report.Result(pid, tier)
    try:
        level = getattr(importlib.import_module(mod), fn)(r) or 'proof'
    except build.Unusable as x:
        for f, w, m in x.sites: r.violate('compile/%s/%s' % (f, m), w, 'an operation of the public interface cannot be compiled: ' + m)
        r.minimum = {}; level = 'proof'
    except build.Broken as x:
        print('CHECK-ERROR %s: %s' % (pid, x)); return 2
    return r.finish(level)
if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print('CHECK-ERROR %s: the analysis crashed' % sys.argv[1:])
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
