"""Driver: builds harnesses from /repo's working tree, runs them, decides, writes evidence."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VK_REPO', '/repo')
BUILD = os.environ.get('VK_BUILD', os.path.join(VERIF, 'build'))
JOBS = int(os.environ.get('VK_JOBS', '8'))
PYBIN = '/opt/vp/venv/bin/python'
PYINC = None

COMMON = ['-std=c++17', '-g1', '-w', '-pipe', '-fPIC', '-D_GLIBCXX_ASSERTIONS', '-DEIGEN_NO_STATIC_ASSERT', '-fno-omit-frame-pointer',
          '-DVK_REPO="%s"' % REPO, '-DVK_VERIF="%s"' % VERIF,
          '-DCFG_PATH="%s/solver_lqr/config/"' % REPO, '-DCFG_SRC_PATH="%s/momentumopt/config/"' % REPO]
INC = ['-I%s/harness/common' % VERIF, '-I%s/harness/stubs' % VERIF] + \
      ['-I%s/%s/include' % (REPO, d) for d in ('solver', 'solver_lqr', 'momentumopt')] + ['-I/usr/include/eigen3']
LIBS = ['-lyaml-cpp', '-lboost_thread', '-lboost_system', '-lpthread']
CFGS = {
    # ASan + UBSan; Eigen and libstdc++ assertions are on (no NDEBUG)
    'san': dict(cxx='g++', cxxflags=['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], ldflags=['-fsanitize=address,undefined']),
    # the same for code whose templates are slow to compile: without the pointer checks that ASan covers
    'sant': dict(cxx='g++', cxxflags=['-O1', '-fsanitize=address,undefined', '-fno-sanitize=null,alignment,object-size,vptr', '-fno-sanitize-recover=all'], ldflags=['-fsanitize=address,undefined']),
    # race detector
    'tsan': dict(cxx='clang++', cxxflags=['-O1', '-fsanitize=thread'], ldflags=['-fsanitize=thread']),
    # assertions on, optimised: volume
    'fast': dict(cxx='g++', cxxflags=['-O2'], ldflags=[]),
    # python extension modules
    'py': dict(cxx='g++', cxxflags=['-O1', '-fvisibility=hidden'], ldflags=['-shared']),
    # the same under ASan + UBSan (the interpreter is started with the ASan runtime preloaded)
    'pysan': dict(cxx='g++', cxxflags=['-O1', '-fvisibility=hidden', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all'], ldflags=['-shared', '-fsanitize=address,undefined']),
}
GROUPS = {
    'solver': ('solver/src', {}),
    'lqr': ('solver_lqr/src', {}),
    'mom': ('momentumopt/src', {}),
    'momset': ('momentumopt/src/momentumopt/setting', {}),
    'momutil': ('momentumopt/src/momentumopt/utilities', {}),
    'pysolver': ('solver/srcpy', {}),
    'pylqr': ('solver_lqr/srcpy', {}),
    'pymom': ('momentumopt/srcpy', {}),
}


class CheckError(Exception):
    pass


def group_sources(g):
    d = os.path.join(REPO, GROUPS[g][0])
    s = sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith('.cpp'))
    if not s:
        raise CheckError('no sources in ' + d)
    return s


def header_hash():
    # object names carry the contents of the source and of all headers, so that a rebuild never depends on file times
    h = hashlib.sha1()
    for d in [os.path.join(REPO, x, 'include') for x in ('solver', 'solver_lqr', 'momentumopt')] + [os.path.join(REPO, x) for x in ('solver/srcpy', 'solver_lqr/srcpy', 'momentumopt/srcpy')] + \
            [os.path.join(VERIF, 'harness', x) for x in ('common', 'stubs')]:
        for r, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.hh', '.hxx', '.inl', '.ipp')):
                    h.update((os.path.join(r, f) + '|').encode() + open(os.path.join(r, f), 'rb').read())
    return h.hexdigest()[:10]


def esc(p):
    return p.replace('$', '$$').replace(' ', '$ ').replace(':', '$:')


def pyflags():
    global PYINC
    if PYINC is None:
        PYINC = subprocess.check_output([PYBIN, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"]);print(sysconfig.get_config_var("EXT_SUFFIX"))'], text=True).split()
    return PYINC


def pybind_compat():
    # the installed pybind11 (2.11) predates numpy 2, the only numpy there is: give the extension modules a copy of
    # its headers that looks the numpy functions up where numpy 2 keeps them (what pybind11 2.12 does)
    d = os.path.join(BUILD, 'pbinc')
    t = os.path.join(d, 'pybind11', 'numpy.h')
    if not os.path.exists(t):
        tmp = os.path.join(d, 'tmp%d' % os.getpid())
        shutil.rmtree(os.path.join(d, 'pybind11'), ignore_errors=True)
        shutil.copytree('/usr/include/pybind11', tmp)
        f = os.path.join(tmp, 'numpy.h')
        h = open(f).read()
        for a, b in (('API_PyArray_CopyInto = 82', 'API_PyArray_CopyInto = 50'), ('numpy.core.', 'numpy._core.'),
                     ('    char flags;\n    int type_num;\n    int elsize;\n    int alignment;\n    char *subarray;\n',
                      '    char former_flags;\n    int type_num;\n    std::uint64_t flags;\n    ssize_t elsize;\n    ssize_t alignment;\n    PyObject *metadata;\n    Py_hash_t hash;\n    void *reserved_null[2];\n    char *subarray;\n')):
            h = h.replace(a, b)
        open(f, 'w').write(h)
        os.rename(tmp, os.path.join(d, 'pybind11'))
    return d


def build(targets):
    """targets: list of dict(name, cfg, srcs, groups, libs, defs, kind). Returns dict name->path."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        hh = header_hash()
        out, lines, objs = {}, ['ninja_required_version = 1.3'], {}
        for c, d in CFGS.items():
            extra = ['-I' + pybind_compat(), '-I' + pyflags()[0]] if c.startswith('py') and any(t['cfg'] == c for t in targets) else []
            lines += ['rule cc_%s' % c, '  command = %s %s $defs -MD -MF $out.d -c $in -o $out' % (d['cxx'], ' '.join(x.replace('"', '\\"') for x in COMMON + d['cxxflags'] + INC + extra)),
                      '  depfile = $out.d', '  deps = gcc', '  description = CC $out',
                      'rule ld_%s' % c, '  command = %s $in -o $out %s $libs' % (d['cxx'], ' '.join(d['ldflags'])), '  description = LD $out']
        for t in targets:
            cfg = t['cfg']
            srcs = [(s if s.startswith('/') else os.path.join(VERIF, 'harness', s), ' '.join(t.get('defs', []))) for s in t['srcs']]
            for g in t.get('groups', []):
                srcs += [(s, '') for s in group_sources(g)]
            os_ = []
            for s, defs in srcs:
                key = (cfg, s, defs)
                if key not in objs:
                    h = hashlib.sha1((s + '|' + defs + '|' + hh).encode() + open(s, 'rb').read()).hexdigest()[:10]
                    o = os.path.join(BUILD, cfg, os.path.basename(s).replace('.cpp', '') + '-' + h + '.o')
                    objs[key] = o
                    lines += ['build %s: cc_%s %s' % (esc(o), cfg, esc(s))] + (['  defs = ' + defs] if defs else [])
                if objs[key] not in os_:
                    os_.append(objs[key])
            name = t['name']
            if t.get('kind') == 'pyext':
                exe = os.path.join(BUILD, cfg, name + pyflags()[1])
            else:
                exe = os.path.join(BUILD, cfg, name)
            out[name] = exe
            lines += ['build %s: ld_%s %s' % (esc(exe), cfg, ' '.join(esc(o) for o in os_)), '  libs = ' + ' '.join(t.get('libs', []) + LIBS)]
        lines.append('')
        nf = os.path.join(BUILD, 'build-%s.ninja' % hashlib.sha1('\n'.join(lines).encode()).hexdigest()[:10])
        with open(nf, 'w') as f:
            f.write('\n'.join(lines))
        r = subprocess.run(['ninja', '-f', nf, '-C', BUILD, '-j', str(JOBS), '-k', '0'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            tail = r.stdout[-6000:]
            raise CheckError('build failed:\n' + tail)
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


# ------------------------------------------------------------------------------------------------
def classify_crash(err, rc):
    m = re.search(r'runtime error: (.*)', err)
    if m:
        return 'ubsan:' + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", 'N', m.group(1))[:80]
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        return 'asan:' + m.group(1)
    if 'WARNING: ThreadSanitizer' in err:
        m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', err)
        return 'tsan:' + m.group(1).strip().replace(' ', '-')
    if 'ERROR: LeakSanitizer' in err:
        return 'lsan:leak'
    m = re.search(r"Assertion [`'](.*?)' failed", err, re.S)
    if m:
        return 'assert:' + re.sub(r'\s+', ' ', m.group(1))[:80]
    m = re.search(r"terminate called after throwing an instance of '(.*?)'", err)
    if m:
        return 'exception:' + m.group(1)
    if 'hard rss limit exhausted' in err:
        return 'memory'
    if rc < 0:
        return 'signal:%d' % -rc
    return 'exit:%d' % rc


class Stage:
    """One workload+monitor program, run over cases 0..count-1 by JOBS processes."""

    def __init__(self, name, srcs=None, groups=(), cfg='san', count=(100, 2000), timeout=120, libs=(), defs=(), env=None,
                 py=None, exts=(), obs=(), mode=None, jobs=None, leaks=False, crash_prefix='crash', rates=()):
        self.__dict__.update(locals())

    def targets(self):
        t = []
        if self.srcs:
            t.append(dict(name=self.name, cfg=self.cfg, srcs=list(self.srcs), groups=list(self.groups), libs=list(self.libs), defs=list(self.defs)))
        for e in self.exts:
            t.append(e)
        return t

    def run(self, paths, seed, tier, rundir, only=None, chat=False):
        n = self.count[0 if tier == 'quick' else 1]
        res = dict(events=[], viol=[], cases=0, cnt={}, mx={}, sigs=set(), samples=[], crashes=0, errors=[], obs_cases=0)
        env = dict(os.environ)
        env.update(ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12:quarantine_size_mb=32:hard_rss_limit_mb=3000' % (1 if self.leaks else 0),
                   UBSAN_OPTIONS='print_stacktrace=1:exitcode=78', TSAN_OPTIONS='hard_rss_limit_mb=3000:exitcode=66:halt_on_error=1:history_size=4:second_deadlock_stack=1',
                   LSAN_OPTIONS='exitcode=79', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                   VK_REPO=REPO, VK_VERIF=VERIF, VK_BUILD=BUILD)
        if self.env:
            env.update({k: (v() if callable(v) else v) for k, v in self.env.items()})
        if self.py:
            cmd0 = [PYBIN, os.path.join(VERIF, 'harness', self.py)]
            env['PYTHONPATH'] = os.pathsep.join([os.path.join(BUILD, self.cfg if self.cfg.startswith('py') else 'py'), os.path.join(VERIF, 'harness', 'pystubs'), os.path.join(VERIF, 'harness', 'common'), os.path.join(REPO, 'momentumopt', 'python')])
            if self.cfg == 'pysan':
                env['LD_PRELOAD'] = ' '.join(subprocess.check_output(['g++', '-print-file-name=' + l], text=True).strip() for l in ('libasan.so', 'libubsan.so', 'libstdc++.so'))
                env['PYTHONMALLOC'] = 'malloc'
        else:
            cmd0 = [paths[self.name]]
        if chat:
            env['VK_CHAT'] = '1'
        J = self.jobs or JOBS
        J = max(1, min(J, n))
        work = []
        if only is not None:
            work.append(dict(first=only, stride=1, end=only + 1, idx=0))
        else:
            for j in range(J):
                work.append(dict(first=j, stride=J, end=n, idx=j))
        for w in work:
            w.update(restarts=0, proc=None, done=False, gen=0)
            self._launch(w, cmd0, env, seed, tier, rundir)
        while not all(w['done'] for w in work):
            time.sleep(0.05)
            for w in work:
                if w['done']:
                    continue
                rc = w['proc'].poll()
                try:
                    sz = os.path.getsize(w['log'])
                except OSError:
                    sz = 0
                if sz != w['sz']:
                    w['sz'] = sz
                    w['last'] = time.time()
                hang = False
                if rc is None:
                    if time.time() - w['last'] > self.timeout:
                        hang = True
                        try:
                            os.killpg(w['proc'].pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        rc = w['proc'].wait()
                    else:
                        continue
                self._collect(w, rc, hang, res, cmd0, env, seed, tier, rundir, only)
        if only is None:
            for num, den, mx in self.rates:  # statistical clauses: `num` may happen in at most a fraction mx of `den`
                a, b = res['cnt'].get(num, 0), res['cnt'].get(den, 0)
                if a > max(2, mx * b):
                    res['viol'].append(dict(stage=self.name, case=-1, key='rate:' + num, detail='%d of %d (allowed fraction %g)' % (a, b, mx)))
        return res

    def _launch(self, w, cmd0, env, seed, tier, rundir):
        w['log'] = os.path.join(rundir, '%s.%d.%d.jsonl' % (self.name, w['idx'], w['gen']))
        w['err'] = os.path.join(rundir, '%s.%d.%d.err' % (self.name, w['idx'], w['gen']))
        cmd = cmd0 + ['--seed', str(seed), '--first', str(w['first']), '--stride', str(w['stride']), '--count', str(w['end']), '--out', w['log'], '--tier', tier]
        if self.mode:
            cmd += ['--mode', self.mode]
        w['cmd'] = cmd
        w['proc'] = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(w['err'], 'w'), stdin=subprocess.DEVNULL, start_new_session=True, cwd=rundir)
        w['last'] = time.time()
        w['sz'] = 0

    def _collect(self, w, rc, hang, res, cmd0, env, seed, tier, rundir, only):
        cur, done, nb = None, False, 0
        try:
            lines = open(w['log'], errors='replace').read().splitlines()
        except OSError:
            lines = []
        for l in lines:
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e['ev'] == 'begin':
                cur = e['case']
                nb += 1
            elif e['ev'] == 'viol':
                res['viol'].append(dict(stage=self.name, case=e['case'], key=e['key'], detail=e.get('detail', '')))
            elif e['ev'] == 'end':
                cur_end = e['case']
                if cur == cur_end:
                    cur = None
                res['cases'] += 1
                for k, v in e.get('cnt', {}).items():
                    res['cnt'][k] = res['cnt'].get(k, 0) + v
                for k, v in e.get('mx', {}).items():
                    v = float(v)
                    if not (v <= res['mx'].get(k, float('-inf'))):
                        res['mx'][k] = v
                if e.get('nt'):
                    res['sigs'].add(self.name + ':' + e.get('sig', ''))
                if e.get('sample') and len(res['samples']) < 6:
                    res['samples'].append('%s#%d: %s' % (self.name, e['case'], e['sample']))
            elif e['ev'] == 'done':
                done = True
        err = ''
        try:
            err = open(w['err'], errors='replace').read()
        except OSError:
            pass
        if rc == 0 and done:
            w['done'] = True
            return
        if done and self.leaks and rc != 0 and 'detected memory leaks' in err:
            m = re.findall(r'#\d+ 0x\w+ in (.+?) (?:/|\()', err)
            frames = [x for x in m if 'operator new' not in x and 'malloc' not in x][:6]
            res['viol'].append(dict(stage=self.name, case=-1, key='lsan:leak', detail=' < '.join(frames)))
            w['done'] = True
            return
        if done and self.leaks and 'LeakSanitizer has encountered a fatal error' in err:
            res['cnt']['lsan_unavailable'] = res['cnt'].get('lsan_unavailable', 0) + 1
            w['done'] = True
            return
        if cur is None and nb == 0:
            res['errors'].append('%s: no case begun, rc=%s, %s' % (self.name, rc, err[-1500:]))
            w['done'] = True
            return
        # crashed or hung inside case `cur` (or, with cur None, between cases / at exit)
        kind = 'hang' if hang else classify_crash(err, rc)
        frames = [x for x in re.findall(r'#\d+ 0x\w+ (?:in )?(.+?)(?: /| \(|$)', err, re.M) if not x.startswith('__') and 'std::' not in x[:5]][:8]
        res['viol'].append(dict(stage=self.name, case=cur if cur is not None else -1, key=self.crash_prefix + ':' + kind, detail=(' < '.join(frames) + ' || ' + err[:600]).strip()))
        res['crashes'] += 1
        w['restarts'] += 1
        nxt = (cur if cur is not None else w['first']) + w['stride']
        if cur is None or done or nxt >= w['end'] or w['restarts'] >= (2 if hang else 6) or only is not None:
            w['done'] = True
            return
        w['first'] = nxt
        w['gen'] += 1
        self._launch(w, cmd0, env, seed, tier, rundir)


def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def match_finding(fs, prop, v):
    for f in fs:
        if f.get('status') != 'open' or f['property'] != prop:
            continue
        if f.get('stage') and f['stage'] != v['stage']:
            continue
        if re.fullmatch(f['key'], v['key'], re.S) and re.search(f.get('detail', ''), v['detail'], re.S):
            return f
    return None


def run_check(prop, spec, tier, seed, replay=None):
    t0 = time.time()
    rundir = os.path.join(BUILD, 'run', '%s-%s-%d-%d' % (prop, tier, seed, os.getpid()))
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    stages = spec['stages']
    rep = None
    if replay:
        rep = json.load(open(replay))
        stages = [s for s in stages if s.name == rep['stage']]
        seed, tier = rep['seed'], rep['tier']
    targets, seen = [], set()
    for s in stages:
        for t in s.targets():
            if (t['name'], t['cfg']) not in seen:
                seen.add((t['name'], t['cfg']))
                targets.append(t)
    paths = build(targets) if targets else {}
    tb = time.time() - t0
    if os.path.isdir(os.path.join(VERIF, 'evidence')) is False:
        os.makedirs(os.path.join(VERIF, 'evidence'))
    tot = dict(viol=[], cases=0, cnt={}, mx={}, sigs=set(), samples=[], errors=[], crashes=0)
    per = {}
    for s in stages:
        ts = time.time()
        r = s.run(paths, seed, tier, rundir, only=(rep['case'] if rep and rep['case'] >= 0 else None), chat=bool(os.environ.get('VK_CHAT')))
        if r['cases'] == 0 and not r['viol'] and not r['errors']:
            r['errors'].append(s.name + ': no case completed')
        if not rep and not r['viol']:
            for o in s.obs:
                k, mn = (o if isinstance(o, tuple) else (o, 1))
                if r['cnt'].get(k, 0) < mn:
                    r['errors'].append('%s: monitor observed %d < %d events of kind %s' % (s.name, r['cnt'].get(k, 0), mn, k))
        per[s.name] = dict(cases=r['cases'], crashes=r['crashes'], wall_s=round(time.time() - ts, 1), events={k: v for k, v in sorted(r['cnt'].items())},
                           worst_ratio_to_tolerance={k: float('%.3g' % v) for k, v in sorted(r['mx'].items())} if r['mx'] else {})
        for k in ('viol', 'errors'):
            tot[k] += r[k]
        tot['samples'] += r['samples'][:4]
        tot['cases'] += r['cases']
        tot['sigs'] |= r['sigs']
        tot['crashes'] += r['crashes']
    fs = load_findings()
    known, new = {}, {}
    for v in tot['viol']:
        f = match_finding(fs, prop, v)
        if f:
            known.setdefault(f['id'], (f, []))[1].append(v)
        else:
            new.setdefault((v['stage'], v['key']), []).append(v)
    rc = 0
    if rep is None:
        # a listed finding is announced whenever it is listed as open; `seen` tells whether this run hit it
        for f in fs:
            if f['property'] == prop and f.get('status') == 'open':
                print('KNOWN-FINDING: property=%s %s%s' % (prop, f['what'], '' if f['id'] in known else ' (not reached on this run)'))
    else:
        for i, (f, vs) in known.items():
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    nrep = 0
    for (st, key), vs in sorted(new.items()):
        rc = 1
        if nrep >= 12:
            break
        nrep += 1
        v = vs[0]
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, '%s-%s-%s.json' % (prop, st, re.sub(r'\W+', '_', key)[:60]))
        if not rep:
            json.dump(dict(property=prop, stage=st, case=v['case'], seed=seed, tier=tier, key=key, detail=v['detail'], occurrences=len(vs),
                           replay='python3 check.py %s --replay %s' % (prop, fn)), open(fn, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, fn if not rep else replay))
        print('  stage=%s case=%d key=%s (%d occurrences) %s' % (st, v['case'], key, len(vs), v['detail'][:700]))
    if rep is None:
        ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
                  coverage=dict(evaluations=tot['cases'], distinct_nontrivial=len(tot['sigs']), rule=spec['rule'], samples=tot['samples'][:12] or ['none'],
                                stages=per, build_s=round(tb, 1), crashes=tot['crashes'], known_findings_hit=sorted(known)),
                  assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=sum(len(v) for v in new.values()))
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if tot['errors'] and rc == 0:
        for e in tot['errors']:
            print('ERROR: ' + e)
        rc = 2
    print('%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %d violations, build %.1fs total %.1fs -> %s' %
          (prop, tier, seed, tot['cases'], len(tot['sigs']), sum(len(v) for v in new.values()), tb, time.time() - t0, {0: 'held', 1: 'VIOLATED', 2: 'ERROR'}[rc]))
    if not os.environ.get('VK_KEEP'):
        shutil.rmtree(rundir, ignore_errors=True)
    return rc
