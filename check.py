#!/usr/bin/env python3
"""python3 check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's current source."""

import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.report import Broken, Report       # noqa: E402
from sa import cxx                         # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rep = Report(prop, tier, seed)
    err = None
    try:
        importlib.import_module('sa.rules.' + prop.lower()).run(rep, tier)
    except (Broken, cxx.Broken) as e:
        err = str(e)
    except Exception:
        err = 'analysis crashed: ' + traceback.format_exc()
    sys.exit(rep.finish(err))


if __name__ == '__main__':
    main()
