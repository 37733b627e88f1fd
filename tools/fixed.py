#!/usr/bin/env python3
"""tools/fixed.py PROPERTY COMMIT-SUBSTRING 'what failed' : records a repaired defect in known_findings.json."""
import json, subprocess, sys
p, sub, what = sys.argv[1:4]
h = [l.split()[0] for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--oneline'], text=True).splitlines() if sub in l]
assert len(h) == 1, h
k = json.load(open('/verif/known_findings.json'))
i = 'F%d' % (1 + max(int(f['id'][1:]) for f in k['findings']))
k['findings'].append(dict(id=i, property=p, status='fixed', commit=h[0], what='fixed: property=%s %s %s' % (p, h[0], what), key='.*', detail='.*'))
open('/verif/known_findings.json', 'w').write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(f) for f in k['findings']) + '\n]}\n')
print(i, h[0])
