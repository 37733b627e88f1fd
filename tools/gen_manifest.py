#!/usr/bin/env python3
"""Writes MANIFEST.json from vk/checks.py (one entry per registered check)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vk import checks
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                      evidence_file='evidence/%s.json' % p, technique=checks.CHECKS[p]['technique'], level='exploration', level_note=checks.CHECKS[p]['note'])
                 for p in ids if p in checks.CHECKS],
         not_applicable=[dict(property=p, reason=checks.NA.get(p, 'check not built yet')) for p in ids if p not in checks.CHECKS],
         notes='All checks rebuild the sources under /repo they need (ninja, /verif/build) and judge executions; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
