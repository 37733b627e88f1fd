#!/usr/bin/env python3
"""setup_cmd: prebuilds every harness from /repo's working tree (checks rebuild what changed themselves)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import core, checks
for p in sorted(checks.CHECKS):
    ts = [t for s in checks.CHECKS[p]['stages'] for t in s.targets()]
    try:
        core.build(ts) if ts else None
    except core.CheckError as e:
        print('setup: %s: %s' % (p, e))
print('setup done')
