#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough]   Decide one property on the current source of /repo."""
import argparse
import importlib
import os
import sys
import threading

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--dump', action='store_true', help='print every obligation')
    a = ap.parse_args()
    from sa.report import Report, finish
    mod = importlib.import_module('sa.checks.' + a.property.lower())
    rep = Report(a.property, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    rc = mod.run(rep)
    if a.dump:
        for o in sorted(rep.ob.values(), key=lambda o: (o['rule'], o['verdict'], o['key'])):
            print('%-9s %-22s %s [%s] %s' % (o['verdict'], o['rule'], o['key'], o['where'], o['detail'][:200]))
    return finish(rep, int(os.environ.get('SA_MIN', 0)) or getattr(mod, 'MINIMUM', 1))


if __name__ == '__main__':
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.exit(out[0] if out else 2)
