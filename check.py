#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vk import core, checks

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
ap.add_argument('--replay')
a = ap.parse_args()
try:
    sys.exit(core.run_check(a.prop, checks.CHECKS[a.prop], 'thorough' if a.tier == 'thorough' else 'quick', a.seed, a.replay))
except core.CheckError as e:
    print('ERROR: ' + str(e))
    sys.exit(2)
