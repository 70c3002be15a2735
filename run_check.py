#!/usr/bin/env python3
"""python3 run_check.py C01 [--tier quick|thorough] [--seed N]"""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
from duck import report          # noqa: E402
from duck import checks          # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    fn = checks.CHECKS[a.prop]
    chk = report.Check(a.prop, a.tier, a.seed, 'model_checking')
    try:
        fn(chk)
    except Exception:
        traceback.print_exc()
        return 2
    return chk.finish()


if __name__ == '__main__':
    sys.exit(main())
