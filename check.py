#!/opt/venv/bin/python
"""usage: check.py ID [--tier quick|thorough] [--replay FILE] [--jobs N] [-v]"""
import argparse
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

from vf import core

if __name__ == '__main__':
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    a.add_argument('--replay')
    a.add_argument('--jobs', type=int)
    a.add_argument('-v', action='store_true')
    o = a.parse_args()
    try:
        code = core.main(o.prop, 'thorough' if o.tier == 'thorough' else 'quick', o.seed, o.replay, o.jobs, o.v)
    except BaseException:
        traceback.print_exc()
        code = 2        # a failing harness is no answer
    sys.stdout.flush()
    os._exit(code)
