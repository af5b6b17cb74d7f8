#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property from /repo's current source."""
import importlib, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from sa.report import Report, Anchor, finish
    from sa.checks import CHECKS
    try:
        rep = CHECKS[prop](tier)
        return finish(rep, tier, seed, t0)
    except Anchor as e:
        print('ERROR property=%s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s' % prop)
        return 2


if __name__ == '__main__':
    r = main()
    sys.stdout.flush()
    os._exit(r)
