#!/usr/bin/env python3
# fills the generated tables of DESIGN.md
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def cell(s): return str(s).replace('|', '/').replace('\n', ' ')
t = ['| id | property | commit | what failed |', '|---|---|---|---|']
for f in json.load(open(R + '/known_findings.json'))['findings']:
    w = re.sub(r'^fixed: property=\S+ \S+ ', '', f['what'])
    t.append('| %s | %s | %s | %s |' % (f['id'], f['property'], f.get('commit') or 'open', cell(w)))
findings = '\n'.join(t)
notes = json.load(open(R + '/tools/bugs/notes.json')) if os.path.exists(R + '/tools/bugs/notes.json') else {}
t = ['| bug | property | what it breaks | needs | result |', '|---|---|---|---|---|']
for b in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(R + '/seeded/%s/meta.json' % b))
    t.append('| %s | %s | %s | %s | %s |' % (b, m['property'], cell(m['what_it_breaks']), cell(m['needs']), notes.get(b, 'caught by ' + m['property'])))
seeded = '\n'.join(t)
p = R + '/DESIGN.md'; s = open(p).read()
for name, body in (('findings', findings), ('seeded', seeded)):
    m = '<!-- %s -->' % name; e = '<!-- /%s -->' % name
    if e in s: s = s[:s.index(m)] + m + '\n' + body + '\n' + s[s.index(e):]
    else: s = s.replace(m, m + '\n' + body + '\n' + e)
open(p, 'w').write(s)
