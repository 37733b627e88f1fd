"""K03: the manifold LQR against an own rigid body written with rotation matrices, central differences and an own recursion."""
import atexit, os, shutil, tempfile
import numpy as np
import vk
from scipy.linalg import expm, cho_factor, cho_solve
from momentumopt.kinoptpy.lqr_gain_manifold import CentroidalLqr

DIR = None


def skew(v):
    return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])


def rot(q):
    x, y, z, w = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def expr(w):
    th = np.linalg.norm(w)
    if th < 1e-4:
        K = skew(w)
        return np.eye(3) + K + K.dot(K) / 2 + K.dot(K).dot(K) / 6
    K = skew(w / th)
    return np.eye(3) + np.sin(th) * K + 2 * np.sin(th / 2) ** 2 * K.dot(K)


def logr(R):
    v = .5 * np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    s, co = np.linalg.norm(v), .5 * (np.trace(R) - 1)
    if s < 1e-7:
        return v
    return v / s * np.arctan2(s, co)


def toq(R):
    """any quaternion [x, y, z, w] of a rotation"""
    m = np.array([1 + R[0, 0] - R[1, 1] - R[2, 2], 1 - R[0, 0] + R[1, 1] - R[2, 2], 1 - R[0, 0] - R[1, 1] + R[2, 2], 1 + np.trace(R)])
    k = int(np.argmax(m))
    s = .5 / np.sqrt(m[k])
    if k == 3:
        return np.array([(R[2, 1] - R[1, 2]) * s, (R[0, 2] - R[2, 0]) * s, (R[1, 0] - R[0, 1]) * s, m[3] * s])
    i, j, l = k, (k + 1) % 3, (k + 2) % 3
    q = np.zeros(4)
    q[i], q[j], q[l], q[3] = m[k] * s, (R[j, i] + R[i, j]) * s, (R[l, i] + R[i, l]) * s, (R[l, j] - R[j, l]) * s
    return q


class Body(object):
    """position, velocity, rotation, world angular velocity"""

    def __init__(self, s):
        self.m, self.dt, self.I = s.mass, s.dt, np.array(s.inertia_com_frame)

    def step(self, x, u, on):
        p, v, R, w = x
        g = np.array([0, 0, -9.81])
        Iw = R.dot(self.I).dot(R.T)
        return (p + self.dt * v, v + self.dt * (on * u[:3] / self.m + g), expr(self.dt * w).dot(R), w + self.dt * np.linalg.solve(Iw, on * u[3:] - np.cross(w, Iw.dot(w))))

    @staticmethod
    def plus(x, d):
        return (x[0] + d[:3], x[1] + d[3:6], expr(d[6:9]).dot(x[2]), x[3] + d[9:])

    @staticmethod
    def minus(b, a):
        return np.hstack([b[0] - a[0], b[1] - a[1], logr(b[2].dot(a[2].T)), b[3] - a[3]])

    def derivatives(self, x, u, on, h=1e-4):
        fx, fu = np.zeros((12, 12)), np.zeros((12, 6))
        for i in range(12):
            d = np.zeros(12)
            d[i] = h
            fx[:, i] = self.minus(self.step(self.plus(x, d), u, on), self.step(self.plus(x, -d), u, on)) / (2 * h)
        for i in range(6):
            d = np.zeros(6)
            d[i] = h
            fu[:, i] = self.minus(self.step(x, u + d, on), self.step(x, u - d, on)) / (2 * h)
        return fx, fu


def split(x):
    return (x[:3], x[3:6], rot(x[6:10]), x[10:])


def files(r, d, n, dt):
    """a plan of n + 1 rows: a tumbling body, hopping or not"""
    c = np.zeros((n + 1, 3))
    v = np.zeros((n + 1, 3))
    c[0], v[0] = r.vec(3), np.array(r.vec(3)) * .3
    R, w = expr(np.array(r.vec(3)) * r.choice([0., .1, 1., 2.])), np.array(r.vec(3)) * r.choice([0., .1, 1., 5.])
    qs, ws, q = [], [], toq(R)
    if r.chance(.3):
        q = -q
    act = np.ones((n + 1, 4))
    for k in range(n + 1):
        if r.chance(.15):
            act[k] = 0
        elif r.chance(.4):
            act[k] = [1. if r.chance(.5) else 0. for _ in range(4)]
        qs.append(q)
        ws.append(w)
        if k < n:
            c[k + 1], v[k + 1] = c[k] + dt * v[k], v[k] + dt * np.array(r.vec(3))
        dq = toq(expr(dt * w))
        dq = dq if dq[3] > 0 else -dq
        a, b = dq, q
        q = np.hstack([np.cross(a[:3], b[:3]) + b[3] * a[:3] + a[3] * b[:3], a[3] * b[3] - a[:3].dot(b[:3])])
        w = w + dt * np.array(r.vec(3)) * 5
    t = np.arange(n + 1)[:, None]
    S = r.choice([0., 1., 1.])
    F = np.array([np.array([0, 0, 21.]) + np.array(r.vec(3)) * 5 * S for _ in range(n + 1)])
    T = np.array([np.array(r.vec(3)) * .05 * S for _ in range(n + 1)])
    for name, a in (('com', c), ('com_vel', v), ('quaternion', np.array(qs)), ('base_ang_velocities', np.array(ws)), ('centroidal_forces', F), ('centroidal_moments', T), ('contact_activation', act)):
        np.savetxt(os.path.join(d, 'quadruped_%s.dat' % name), np.hstack([t, a]))
    return c, v, np.array(qs), np.array(ws), F, T, act


def state(r, wild):
    q = np.array(r.vec(4))
    q /= np.linalg.norm(q)
    if r.chance(.2):
        q = np.array([0, 0, 0, r.sgn() * 1.])
    return np.hstack([np.array(r.vec(3)), np.array(r.vec(3)) * wild, q, np.array(r.vec(3)) * wild * r.choice([0., 1., 3.])])


def one(c):
    r = c.rng
    d = os.path.join(DIR, 'p%d' % c.id)
    os.mkdir(d)
    n = r.irange(2, 12) if c.tier == 'quick' else r.irange(2, 40)
    data = files(r, d, n, 1e-3)
    s = CentroidalLqr(d)
    b = Body(s)
    pos, vel, ori, ang, F, T, act = data
    # what the plan files say is what the solver works on, and the reference is the motion of the body under the planned wrench
    c.require('horizon', s.N == n and s.x0.shape == (n + 1, 13) and s.u0.shape == (n, 6), '%d %s' % (s.N, s.x0.shape))
    c.check('reads_plan', max(np.abs(s.xp - np.hstack([pos, vel, ori, ang])).max(), np.abs(s.u0 - np.hstack([F, T])[:-1]).max()), 1e-12, '')
    on = [1. if a.sum() > 0 else 0. for a in act]
    c.require('contact_phases', list(s.active_contacts) == on, str(s.active_contacts))
    x = split(np.hstack([pos[0], vel[0], ori[0], ang[0]]))
    for t in range(n):
        x = b.step(x, s.u0[t], on[t])
        g = split(s.x0[t + 1])
        c.check('reference_is_the_bodys_motion', max(np.abs(i - j).max() for i, j in zip(g, x)), 1e-9, 'step %d' % t)
        c.check('unit_quaternion', abs(np.linalg.norm(s.x0[t + 1][6:10]) - 1), 1e-9, 'step %d' % t)
    # algebra
    for _ in range(4):
        x, y = state(r, 1.), state(r, 1.)
        w = np.array(r.vec(3))
        w *= r.choice([0., 1e-9, 1e-6, 1e-3, 2e-3, .1, 1., 3.]) / np.linalg.norm(w)
        q2 = s.integrate_quaternion(x[6:10], w)
        c.check('integration_rotates', np.abs(rot(q2) - expr(w).dot(rot(x[6:10]))).max(), 1e-9, 'angle %g' % np.linalg.norm(w))
        c.check('difference_undoes_integration', np.abs(s.quaternion_difference(x[6:10], q2) - w).max(), 1e-9, 'angle %g' % np.linalg.norm(w))
        q3 = s.integrate_quaternion(x[6:10], s.quaternion_difference(x[6:10], y[6:10]))
        c.check('integrating_difference_arrives', np.abs(rot(q3) - rot(y[6:10])).max(), 1e-8, '')
        e = s.exp_quaternion(.5 * s.log_quaternion(x[6:10]))
        c.check('exp_of_log', min(np.abs(e - x[6:10]).max(), np.abs(e + x[6:10]).max()), 1e-9, '')
        c.check('rotation_matrix', np.abs(s.quaternion_to_rotation(x[6:10]) - rot(x[6:10])).max(), 1e-12, '')
        dx = np.array(r.vec(12)) * r.choice([1e-6, 1e-3, .3])
        z = s.increment_x(x, dx)
        c.check('difference_undoes_increment', np.abs(s.diff_x(x, z) - dx).max(), 1e-9, '')
        z = s.increment_x(x, s.diff_x(x, y))
        c.check('increment_by_difference_arrives', max(np.abs(i - j).max() for i, j in zip(split(z), split(y))), 1e-8, '')
        p = s.quaternion_product(x[6:10], y[6:10])
        c.check('product_composes', np.abs(rot(p) - rot(x[6:10]).dot(rot(y[6:10]))).max(), 1e-12, '')
    # one step, its derivatives, the cost and its derivatives, on and off the plan
    for _ in range(3):
        t = r.irange(0, n - 1)
        far = r.chance(.5)
        x = state(r, 1.) if far else s.increment_x(s.x0[t], np.array(r.vec(12)) * r.choice([0., 1e-3, .1]))
        u = s.u0[t] + np.array(r.vec(6)) * np.array([5, 5, 5, .05, .05, .05]) * r.choice([0., 1.])
        x_, u_ = x.copy(), u.copy()
        y = split(s.integrate_step(t, x, u))
        z = b.step(split(x), u, on[t])
        c.check('one_step', max(np.abs(i - j).max() for i, j in zip(y, z)), 1e-9, 'step %d' % t)
        w = np.abs(x[10:]).max()
        c.check('rates_agree', max(np.abs(s.integrate_angular_velocity(x[10:], x[6:10], u[3:]) - b.step(split(x), u, 1.)[3]).max(), np.abs(s.integrate_veocity(x[3:6], u[:3]) - b.step(split(x), u, 1.)[1]).max()), 1e-9, '')
        fx, fu = s.dynamics_derivatives(t, x, u)
        gx, gu = b.derivatives(split(x), u, on[t])
        c.check('state_derivative', np.abs(fx - gx).max(), 2e-6 * (1 + np.abs(gx).max()), 'step %d' % t)
        c.check('control_derivative', np.abs(fu - gu).max(), 2e-6 * (1 + np.abs(gu).max()), 'step %d' % t)
        Q = s.Q[t]
        dx = Body.minus(split(x), split(s.x0[t]))
        if np.linalg.norm(dx[6:9]) < 2.5 and np.linalg.norm(s.diff_x(s.x0[t], x)[6:9]) < 3.:
            J = .5 * dx.dot(Q).dot(dx) + .5 * u.dot(s.R[t]).dot(u)
            c.check('cost', abs(s.cost(t, x, u) - J), 1e-9 * (1 + J), 'step %d' % t)
            cx, cu, cxx, cuu, cxu = s.cost_derivatives(t, x, u)
            f = lambda e: (lambda k: .5 * k.dot(Q).dot(k))(Body.minus(Body.plus(split(x), e), split(s.x0[t])))
            h, E = 1e-3, np.eye(12)
            ox = np.array([(f(h * e) - f(-h * e)) / (2 * h) for e in E])
            oxx = np.array([[(f(h * (a + k)) - f(h * (a - k)) - f(h * (k - a)) + f(-h * (a + k))) / (4 * h * h) for k in E] for a in E])
            c.check('cost_gradient', max(np.abs(cx - ox).max(), np.abs(cu - s.R[t].dot(u)).max()), 1e-5 * (1 + J), 'step %d' % t)
            c.check('cost_curvature', max(np.abs(cxx - oxx).max(), np.abs(cuu - s.R[t]).max(), np.abs(cxu).max()), 1e-3 * (1 + J), 'step %d' % t)
            c.count('costs')
        c.require('arguments_unchanged', np.array_equal(x, x_) and np.array_equal(u, u_), '')
    # gains
    if r.chance(.4):
        s.compute_gains()
        S = 2 * np.eye(12)
        v = np.zeros(12)
        for t in range(n - 1, -1, -1):
            fx, fu = b.derivatives(split(s.x0[t]), s.u0[t], on[t])
            H = s.R[t] + fu.T.dot(S).dot(fu)
            K = np.linalg.solve(H, fu.T.dot(S).dot(fx))
            c.check('gains_are_riccati', np.abs(s.kfb[t] - K).max(), 2e-4 * (1 + np.abs(K).max()), 'step %d of %d' % (t, n))
            k = np.linalg.solve(H, s.R[t].dot(s.u0[t]) + fu.T.dot(v))
            c.check('feedforward_is_riccati', np.abs(s.kff[t] - k).max(), 2e-4 * (1 + np.abs(k).max()), 'step %d of %d' % (t, n))
            v = fx.T.dot(v) - K.T.dot(H).dot(k)
            if on[t] == 0:
                c.check('no_gain_in_flight', np.abs(s.kfb[t]).max(), 1e-12, 'step %d' % t)
            S = s.Q[t] + fx.T.dot(S).dot(fx) - fx.T.dot(S).dot(fu).dot(K)
            S = .5 * (S + S.T)
        c.check('written_gains', np.abs(np.loadtxt(os.path.join(d, 'quadruped_centroidal_gains_manifold.dat')).reshape(n, 6, 12) - s.kfb).max(), 1e-12 * (1 + np.abs(s.kfb).max()), '')
        c.count('gain_runs')
    shutil.rmtree(d)
    c.nontrivial = True
    c.sig = '%d:%s' % (n, ''.join('%d' % o for o in on))
    c.sample = '%d steps, contact %s' % (n, c.sig)


def init():
    global DIR
    DIR = tempfile.mkdtemp(prefix='vk-k03-')
    atexit.register(lambda: shutil.rmtree(DIR, ignore_errors=True))


vk.run('k03_lqr', one, init)
