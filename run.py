#!/usr/bin/env python3
"""python3 run.py C01 [--tier quick|thorough]"""
import importlib
import os
import sys
import argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--only', default=None)
    a = ap.parse_args()
    if sys.flags.hash_randomization and os.environ.get('VERIF_HS') != '1':
        os.environ['VERIF_HS'] = '1'
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    from sa import check
    mod = importlib.import_module('checks.' + a.prop.lower())
    build = mod.build
    if a.only:
        def build(c, b=mod.build):
            b(c)
            c.obs = [o for o in c.obs if a.only in o[0]]
    return check.main(a.prop, build, a.tier, int(os.environ.get('VERIF_SEED', '1')), mod.LEVEL, mod.TECHNIQUE, mod.NOTE)


if __name__ == '__main__':
    sys.exit(main())
