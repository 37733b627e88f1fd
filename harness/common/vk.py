"""Runtime-monitor plumbing for the Python harnesses: deterministic cases, JSON-lines event log (see vk.hpp)."""
import json, math, os, random, sys


class Rng(random.Random):
    def uni(self, a, b):
        return a + (b - a) * self.random()

    def irange(self, a, b):
        return self.randint(a, b)

    def chance(self, p):
        return self.random() < p

    def normal(self):
        return self.gauss(0, 1)

    def logu(self, a, b):
        return math.exp(self.uni(math.log(a), math.log(b)))

    def sgn(self):
        return 1.0 if self.chance(.5) else -1.0

    def vec(self, n, s=1.0):
        import numpy as np
        return np.array([self.normal() * s for _ in range(n)])


class Case:
    def __init__(self, log, seed, cid, tier, name):
        self.log, self.seed, self.id, self.tier = log, seed, cid, tier
        self.rng = Rng('%d|%s|%d' % (seed, name, cid))
        self.nviol, self.sig, self.nontrivial, self.sample = 0, '', False, ''
        self.cnt, self.mx = {}, {}

    def count(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def peak(self, k, v):
        v = float(v)
        if k not in self.mx or not (v <= self.mx[k]):
            self.mx[k] = v

    def violate(self, key, detail=''):
        self.nviol += 1
        if self.nviol <= 5:
            self.log({'ev': 'viol', 'case': self.id, 'key': key, 'detail': str(detail)[:600]})

    def check(self, key, value, tol, extra=''):
        value = float(value)
        self.count('obs:' + key)
        self.peak(key, value / tol if tol > 0 else value)
        if not (value <= tol):
            self.violate(key, 'value=%.9g tol=%.9g %s' % (value, tol, extra))
            return False
        return True

    def require(self, key, ok, extra=''):
        self.count('obs:' + key)
        if not ok:
            self.violate(key, extra)
        return bool(ok)


def run(name, fn, init=None):
    a = dict(seed='1', first='0', stride='1', count='10', out='', tier='quick', mode='')
    v = sys.argv[1:]
    for i in range(0, len(v) - 1, 2):
        a[v[i][2:]] = v[i + 1]
    fd = os.open(a['out'], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644) if a['out'] else os.dup(1)

    def num(x):
        return x if math.isfinite(x) else ('nan' if math.isnan(x) else ('inf' if x > 0 else '-inf'))

    def log(e):
        os.write(fd, (json.dumps(e) + '\n').encode())

    if a['out'] and not os.environ.get('VK_CHAT'):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.close(dn)
    run.mode, run.tier = a['mode'], a['tier']
    if init:
        init()
    for k in range(int(a['first']), int(a['count']), int(a['stride'])):
        log({'ev': 'begin', 'case': k})
        c = Case(log, int(a['seed']), k, a['tier'], name)
        try:
            fn(c)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            here = [f for f in tb if '/repo' in f.filename or f.filename.startswith(os.environ.get('VK_REPO', '/repo'))]
            f = (here or tb)[-1]
            c.violate('exception:%s:%s:%s' % (type(e).__name__, os.path.basename(f.filename), f.name), '%s (line %d) %s' % (e, f.lineno, ' < '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in tb[-6:])))
        e = {'ev': 'end', 'case': k, 'sig': c.sig, 'nt': bool(c.nontrivial), 'viol': c.nviol, 'cnt': c.cnt, 'mx': {x: num(y) for x, y in c.mx.items()}}
        if c.sample:
            e['sample'] = str(c.sample)[:300]
        log(e)
    log({'ev': 'done'})
    sys.exit(0)
