#!/usr/bin/env python3
"""check.py <property id> : decide one property from /repo's current source."""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading

threading.stack_size(512 * 1024 * 1024)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='*')
    ap.add_argument('--self', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--debug', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    from sa.rules import run_property
    from sa.source import AnchorError
    from sa.props import PROPS
    if a.self:
        from sa import engine
        engine.program()
        print('analysed modules: %d' % len(engine.program().mods))
        return 0
    rc = 0
    ids = list(PROPS) if a.property == ['all'] else a.property
    for p in ids:
        try:
            rc = max(rc, run_property(p, a.tier, seed, a.debug))
        except AnchorError as e:
            print('ANALYSIS-BROKEN %s: %s' % (p, e))
            rc = max(rc, 2)
    return rc


if __name__ == '__main__':
    box = []
    t = threading.Thread(target=lambda: box.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(box[0] if box else 3)
