#!/usr/bin/env python3
"""run.py PROPERTY: the check of a property (VERIF_SEED, VERIF_TIER). run.py setup: what the checks share."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, tlc, check
from vlib.checks import CHECKS


def main():
    a = sys.argv[1]
    if a == 'setup':
        tlc.classes()
        r = tlc.run('mc/MC_Rat.tla')
        print('setup: arithmetic of the specification: %s' % ('ok, %d states' % r.distinct if r.ok else r.error))
        print('setup:', build.build())
        return 0 if r.ok else 2
    try:
        return CHECKS[a].run()
    except (check.Machinery, build.BuildError) as e:
        print('ERROR %s: %s' % (a, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
