#!/usr/bin/env python3
"""check.py <property> : run the check of one property (tier from VERIF_TIER)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from lib import build, tlc
from lib.frame import Check

def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    mod = importlib.import_module('lib.checks.' + pid.lower())
    c = Check(pid)
    try:
        mod.run(c)
    except (build.BuildError, tlc.TlcError) as e:
        print('ERROR property=%s: %s' % (pid, e))
        if not c.viol:
            return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        if not c.viol:
            return 2
    return c.finish(mod.LEVEL, getattr(mod, 'ASSUMPTIONS', ()))

if __name__ == '__main__':
    sys.exit(main())
