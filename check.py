#!/usr/bin/env python3
"""check.py <PROPERTY> [--unit REGEX] [--replay FILE] [-v]: decide one property on /repo's current tree."""
import sys, os, json, argparse, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from vf import run


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--unit'); ap.add_argument('--replay'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = importlib.import_module('specs.' + a.prop)
    if a.replay:
        d = json.load(open(a.replay))
        for u in spec.units(tier):
            if u.name == d['unit']:
                if not d['replay']:
                    print('no failing input: the verifier output is in the replay file'); print(d['verifier_output']); sys.exit(1)
                ctx = run.Ctx(a.prop, tier, seed)
                try: b = u.replay(ctx, d['replay'])
                finally: ctx.close()
                print('failed obligation:', b)
                sys.exit(1 if b else 0)
        sys.exit('unit not found')
    sys.exit(run.run_property(a.prop, spec, tier, seed, a.unit, a.v))


main()
