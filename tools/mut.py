#!/usr/bin/env python3
"""tools/mut.py SPEC.py CLONE [ids..]: applies each mutant of SPEC (MUT: id, property, file, old, new) to a scratch clone of /repo, runs the property's
check against it and says whether it was caught. The clone and its build output live under /tmp and are removed by hand afterwards."""
import os, subprocess, sys, runpy, time
spec, clone = sys.argv[1:3]; want = sys.argv[3:]
MUT = runpy.run_path(spec)['MUT']
env = dict(os.environ, VK_REPO=clone, VK_BUILD=clone + '-build', VK_JOBS=os.environ.get('VK_JOBS', '8'), VERIF_SEED='1')
if not os.path.isdir(clone): subprocess.check_call(['git', 'clone', '-q', '/repo', clone])
os.makedirs(clone + '-build', exist_ok=True)
for m in MUT:
    i, p, f, old, new = m[:5]
    if want and i not in want and p not in want: continue
    path = os.path.join(clone, f); s = open(path).read()
    if s.count(old) != 1: print(i, 'MATCHES', s.count(old), flush=True); continue
    open(path, 'w').write(s.replace(old, new)); t = time.time()
    try:
        r = subprocess.run(['python3', '/verif/check.py', p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd='/verif')
        v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'stage=' in l]
        print(i, p, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t), (' | '.join(v) or r.stdout[-600:])[:420], flush=True)
    finally: open(path, 'w').write(s)
