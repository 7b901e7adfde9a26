#!/usr/bin/env python3-vt
"""check.py --property PNN --tier quick|thorough : decide one property on /repo's current tree."""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    from engine import run
    sys.exit(run.check(a.property, a.tier, a.seed))


if __name__ == '__main__':
    main()
