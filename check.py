#!/usr/bin/env python3-vt
"""check.py PROPERTY            run the check of one property (VERIF_TIER, VERIF_SEED)
check.py PROPERTY --replay FILE ORACLE SEED CASE   rerun one native case on the current /repo"""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from dv import runner
import registry

if __name__ == '__main__':
    pid = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] == '--replay': sys.exit(runner.replay_case(sys.argv[3:7]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(runner.check(pid, registry.PROPS[pid], tier, seed))
