"""K05: quadratic programs with a planted minimiser and multipliers through the Python wrapper."""
import numpy as np
import vk
from momentumopt.kinoptpy.qp import QpSolver

SOLVER = QpSolver()


def mat(r, m, n, s=1.):
    return np.array([[r.normal() * s for _ in range(n)] for _ in range(m)]).reshape(m, n)


def presentation(r, a):
    k = r.irange(0, 3)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1 and a.ndim == 2 and a.shape[0]:
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 2))
        b[::2, ::2] = a
        return b[::2, ::2]                       # a strided view
    if k == 2 and a.ndim == 1:
        b = np.zeros(2 * len(a))
        b[::2] = a
        return b[::2]
    return a.copy()


def one(c):
    r = c.rng
    n = r.irange(1, 12)
    neq = r.irange(0, n) if r.chance(.6) else 0
    nin = r.irange(1, 15) if r.chance(.6) else 0
    B = mat(r, r.irange(1, n + 3), n)
    P = B.T.dot(B) + np.eye(n) * r.choice([1e-3, 1e-2, 1., 10.])
    P = .5 * (P + P.T) * r.logu(1e-2, 1e2)
    x = np.array(r.vec(n)) * r.choice([.1, 1., 10.])
    A, G = mat(r, neq, n), mat(r, nin, n)
    if neq and np.linalg.svd(A)[1].min() < .05:
        c.count('dependent_skipped')
        return
    b = A.dot(x)
    z = np.zeros(nin)
    h = G.dot(x) + np.array([r.logu(1e-2, 10) for _ in range(nin)])
    act = [i for i in range(nin) if r.chance(.4)]
    act = act[:max(0, n - neq - 1)]              # independent active constraints: the backend may not end otherwise
    s = np.abs(P).max()
    for i in act:
        h[i] = G[i].dot(x)
        z[i] = 0. if r.chance(.1) else r.logu(1e-2, 10) * s
    y = np.array([r.normal() * s for _ in range(neq)])
    q = -(P.dot(x) + A.T.dot(y) + G.T.dot(z))
    infeasible = nin > 1 and r.chance(.1)
    if infeasible:
        G[1], h[1] = -G[0], -h[0] - r.logu(.1, 10)
    P_, q_, A_, b_, G_, h_ = (presentation(r, a) for a in (P, q, A, b, G, h))
    kw = {}
    if neq:
        kw.update(A=A_, b=b_)
    if nin:
        kw.update(G=G_, h=h_)
    if r.chance(.05):
        kw['initvals'] = np.array(r.vec(n))
    solver = SOLVER if r.chance(.5) else QpSolver()
    what = '%d variables %d equalities %d inequalities (%d active)' % (n, neq, nin, len(act))
    try:
        got = solver.quadprog_solve_qp(P_, q_, **kw)
    except ValueError as e:
        if infeasible:
            c.count('obs:infeasible_reported')
        else:
            c.violate('solvable_program_refused', '%s: %s' % (what, e))
        c.count('programs')
        return
    c.count('programs')
    if infeasible:
        c.violate('infeasible_program_solved', '%s returned %s' % (what, got))
        return
    for name, a, o in (('P', P_, P), ('q', q_, q), ('A', A_, A), ('b', b_, b), ('G', G_, G), ('h', h_, h)):
        c.require('inputs_unchanged', np.array_equal(a, o), '%s: %s' % (what, name))
    if not c.require('shape', np.shape(got) == (n,), str(np.shape(got))):
        return
    sc = 1 + np.abs(x).max()
    w = np.linalg.eigvalsh(P)
    grad = np.abs(P).max() * sc + np.abs(q).max()
    tol = 1e-10 * grad / w[0] + 1e-9 * sc
    if neq:
        c.check('equalities_hold', np.abs(A.dot(got) - b).max(), 1e-9 * (np.abs(A).max() * n * (sc + tol) + 1), what)
    if nin:
        c.check('inequalities_hold', max(0, (G.dot(got) - h).max()), 1e-9 * (np.abs(G).max() * n * (sc + tol) + 1), what)
    c.check('is_minimiser', np.abs(got - x).max(), tol, what)
    f = lambda v: .5 * v.dot(P).dot(v) + q.dot(v)
    c.check('objective', f(got) - f(x), 1e-9 * (1 + abs(f(x)) + grad * sc), what)
    c.nontrivial = neq + len(act) > 0
    c.sig = '%d:%d:%d:%d' % (n, neq, nin, len(act))
    c.sample = what


vk.run('k05_qp', one)
