#!/usr/bin/env python3
"""tools/plant.py SPEC.py [ids..]: writes /verif/seeded/<id>/ from a specification (list BUGS of dicts) and confirms every planted bug:
applies to HEAD, builds, passes the stable tests, demo passes without and fails with the patch; then says whether the property's check catches it."""
import json, os, subprocess, sys, runpy
V, R = '/verif', '/repo'
SOLVER_SH = '''#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
g++ -std=c++17 -O1 -w -DEIGEN_NO_STATIC_ASSERT %(defs)s -I/repo/solver/include -I/usr/include/eigen3 "$H/demo.cpp" -o "$D/demo" -L/repo/_build -lsolver -Wl,-rpath,/repo/_build -lyaml-cpp -lboost_thread -lboost_system -lpthread || exit 2
cd "$D" && timeout 120 ./demo
'''
SRC_SH = '''#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
INC="-I$H -I/repo/solver/include -I/repo/solver_lqr/include -I/repo/momentumopt/include -I/usr/include/eigen3"
DEF='-DEIGEN_NO_STATIC_ASSERT -DCFG_PATH="/repo/solver_lqr/config/" -DCFG_SRC_PATH="/repo/momentumopt/config/" %(defs)s'
cd "$D"
ls %(srcs)s "$H/demo.cpp" | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O0 -w -c '"$DEF $INC"' "{}" -o "$(echo {} | tr / _).o"' || exit 2
g++ *.o -o demo -L/repo/_build -lsolver -Wl,-rpath,/repo/_build -lyaml-cpp -lboost_thread -lboost_system -lpthread || exit 2
timeout 200 ./demo
'''
PY_SH = '''#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cd "$D" && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$D PYTHONPATH=$H:/repo/momentumopt/python timeout 250 /opt/vp/venv/bin/python "$H/demo.py"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    r = sh('git -C %s status --porcelain' % R).stdout.strip()
    if r: sys.exit('repo not clean: ' + r)
def main():
    spec = runpy.run_path(sys.argv[1]); want = sys.argv[2:]
    for b in spec['BUGS']:
        if want and b['id'] not in want: continue
        clean(); d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in b['edits']:
                p = os.path.join(R, f); s = open(p).read(); n = s.count(old)
                if n != 1: print(b['id'], 'EDIT MATCHES', n, f, repr(old)[:80]); raise KeyError
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git -C %s diff' % R).stdout
        except KeyError: continue
        finally: sh('git -C %s checkout -- .' % R)
        open(d + '/patch.diff', 'w').write(diff)
        for n, t in b.get('files', {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True); open(os.path.join(d, n), 'w').write(t)
        if 'demo_cpp' in b: open(d + '/demo.cpp', 'w').write(b['demo_cpp'])
        if 'demo_py' in b: open(d + '/demo.py', 'w').write(b['demo_py'])
        k = b.get('kind', 'solver')
        if k in ('src', 'py') and b.get('stubs', k == 'src'):
            os.makedirs(d + '/yaml_utils', exist_ok=True)
            for f in ('yaml_cpp_fwd.hpp', 'yaml_eigen.hpp'): open(d + '/yaml_utils/' + f, 'w').write(open(V + '/harness/stubs/yaml_utils/' + f).read())
        t = b.get('sh') or dict(solver=SOLVER_SH, src=SRC_SH, py=PY_SH)[k] % dict(defs=b.get('defs', ''), srcs=b.get('srcs', '')) if k != 'py' else PY_SH
        open(d + '/demo.sh', 'w').write(t); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        confirm(b['id'], b['prop'])
def confirm(i, prop, tests=True):
    d = os.path.join(V, 'seeded', i); out = [i, prop]
    import time; t = time.time(); sh('bash /opt/vp/build.sh'); r0 = sh('bash %s/demo.sh' % d, cwd=R); out.append('demo_clean=%d(%.0fs)' % (r0.returncode, time.time() - t))
    if r0.returncode: print(r0.stdout[-1500:])
    try:
        r = sh('git -C %s apply %s/patch.diff' % (R, d)); out.append('apply=%d' % r.returncode)
        r = sh('bash /opt/vp/test.sh /tmp/plant.json'); out.append('tests=' + ' '.join(r.stdout.strip().splitlines()[-1:]))
        r1 = sh('bash %s/demo.sh' % d, cwd=R); out.append('demo_bug=%d' % r1.returncode)
        if r1.returncode in (0, 2): print(r1.stdout[-1500:])
        r = sh('VERIF_SEED=1 python3 check.py %s' % prop, cwd=V); out.append('CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED rc=%d' % r.returncode)
        out.append('; '.join(l.strip()[:160] for l in r.stdout.splitlines() if 'stage=' in l)[:330] or r.stdout[-200:])
    finally: sh('git -C %s checkout -- .' % R)
    print(' | '.join(out), flush=True)
if __name__ == '__main__':
    if sys.argv[1] == '--confirm':
        for i in sys.argv[2:] or sorted(os.listdir(V + '/seeded')): confirm(i, json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property'])
    else: main()
