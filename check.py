#!/usr/bin/env python3
"""Run one property check: check.py <property> [--tier quick|thorough].  Exit 0 held, 1 violation, 2 analysis broken."""
import sys, os, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
sys.setrecursionlimit(20000)
import importlib
from front import Broken
from report import Report
from rules import RULES


def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    mod, rule, assume = RULES[prop]
    R = Report(prop, rule, tier)
    R.assume = list(assume)
    try:
        importlib.import_module(mod).run(R)
        if R.obl == 0:
            raise Broken('no obligations were generated')
    except Broken as e:
        print('%s: ANALYSIS-BROKEN: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('%s: ANALYSIS-BROKEN: internal error' % prop)
        return 2
    return R.finish()


sys.exit(main())
