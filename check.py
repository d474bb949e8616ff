#!/usr/bin/env python3
"""Check one property:  check.py C03 [--tier quick|thorough] [--seed N]
   or replay a reported violation:  check.py --replay evidence/replay/C03-....json"""
import argparse, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import run as R
import config

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0, help='multiply case counts (development)')
    a = ap.parse_args()
    seed = int(a.seed) if a.seed.lstrip('-').isdigit() else R.stable_seed(a.seed)
    if a.replay:
        return R.replay(a.replay)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    p = config.PROPS[a.prop]
    groups = p['groups'](tier)
    for g in groups:
        g.count = max(1, int(g.count * a.scale))
    return R.run_check(a.prop, groups, p['rule'], p['level'], seed, tier, p['assumptions'],
                       required=p.get('required', ()), only=p.get('only'), limit=800 if tier == 'quick' else 3300)

if __name__ == '__main__':
    sys.exit(main())
