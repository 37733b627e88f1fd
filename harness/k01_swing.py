"""K01: swing-foot, joint and base trajectories against their closed form (quintic rest-to-rest plus a cubic bump for the apex)."""
from math import floor
import numpy as np
import vk
from traj import piece
from numpy.polynomial import polynomial as P
from pymomentum import DynamicsSequence
from momentumopt.kinoptpy.momentum_kinematics_optimizer import EndeffectorTrajectoryGenerator, TrajectoryInterpolator
from momentumopt.kinoptpy.min_jerk_traj import Polynomial, PolynominalList, constant_poly, poly_points


class Planner(object):
    pass


def contacts(r, n, c):
    """phases of one effector: [start, end] inclusive step indices, at least one"""
    while True:
        k = r.irange(1, 6)
        cuts = sorted(r.sample(range(n), min(n, 2 * k)))
        res, i = [], 0
        if len(cuts) % 2:
            cuts.append(cuts[-1])
        for i in range(0, len(cuts), 2):
            res.append([cuts[i], cuts[i + 1]])
        if r.chance(.6):
            res[0][0] = 0
        if r.chance(.4):
            res[-1][1] = n - 1
        if r.chance(.1):
            res = [[0, n - 1]]
        # neighbouring phases need a step in the air between them
        out = [res[0]]
        for a in res[1:]:
            if a[0] - out[-1][1] >= 2:
                out.append(a)
            else:
                out[-1][1] = max(out[-1][1], a[1])
        return out


def swing(c):
    r = c.rng
    n = r.irange(2, 40) if r.chance(.8) else r.irange(40, 120 if c.tier == 'quick' else 400)
    ne = r.irange(1, 4)
    m = Planner()
    m.dt, m.num_time_steps = r.choice([.001, .01, .1, r.uni(.002, .3)]), n
    m.eff_names = ['E%d' % i for i in range(ne)]
    seq = DynamicsSequence()
    seq.resize(n)
    g = EndeffectorTrajectoryGenerator()
    g.z_offset = r.choice([.1, r.uni(0, .5), 0.])
    plan, reach = [], r.choice([.1, 1., 10.])
    for e in range(ne):
        ph = contacts(r, n, c)
        at = [np.array(r.vec(3)) * reach for _ in ph]
        if r.chance(.2):
            at = [at[0]] * len(at)
        plan.append((ph, at))
        for t in range(n):
            s = seq.dynamics_states[t]
            on = [i for i, p in enumerate(ph) if p[0] <= t <= p[1]]
            s.setEffActivation(e, bool(on))
            # where the effector is said to be while it is in the air must not matter
            s.setEffPosition(e, at[on[0]] if on else np.array(r.vec(3)))
    m.dynamic_sequence = seq
    m.com_dyn = np.zeros((n, 3))
    pos, vel, con = g(m)
    c.require('shapes', pos.shape == (n, ne, 3) and vel.shape == (n, ne, 3) and con.shape == (n, ne), '%s %s %s' % (pos.shape, vel.shape, con.shape))
    tol = 1e-10 * (1 + reach)
    for e, (ph, at) in enumerate(plan):
        what = 'contacts %s of %d steps' % (ph, n)
        for t in range(n):
            on = [i for i, p in enumerate(ph) if p[0] <= t <= p[1]]
            c.require('contact_flag', con[t, e] == (1. if on else 0.), '%s step %d' % (what, t))
            if on:
                landing = t == ph[on[0]][0] and on[0] > 0     # computed as the end of the flight
                c.check('stands_at_contact', np.abs(pos[t, e] - at[on[0]]).max(), tol if landing else 1e-12 * reach * 10, '%s step %d' % (what, t))
                c.check('stands_still', np.abs(vel[t, e]).max(), tol / m.dt if landing else 0., '%s step %d' % (what, t))
                continue
            before = [i for i, p in enumerate(ph) if p[1] < t]
            if not before:                                # in the air from the start: waits where it will land
                c.check('waits_at_first_contact', max(np.abs(pos[t, e] - at[0]).max(), np.abs(vel[t, e]).max()), 1e-12 * reach * 10, '%s step %d' % (what, t))
                c.count('air_at_start')
                continue
            i = before[-1]
            if i + 1 == len(ph):                          # stays in the air
                c.check('stays_after_last_contact', max(np.abs(pos[t, e] - at[i]).max(), np.abs(vel[t, e]).max()), 1e-12 * reach * 10, '%s step %d' % (what, t))
                c.count('air_at_end')
                continue
            for d in range(3):
                p, v = piece(t, ph[i][1], ph[i + 1][0], at[i][d], at[i + 1][d], at[i][2] + g.z_offset if d == 2 else None)
                c.check('swing_position', abs(pos[t, e, d] - p), tol, '%s step %d axis %d' % (what, t, d))
                c.check('swing_velocity', abs(vel[t, e, d] - v / m.dt), tol / m.dt, '%s step %d axis %d' % (what, t, d))
            c.count('swing_steps')
        for i in range(len(ph) - 1):
            mid = .5 * (ph[i][1] + ph[i + 1][0])
            if mid == floor(mid):
                c.check('apex', abs(pos[int(mid), e, 2] - at[i][2] - g.z_offset), tol, what)
    # the pieces between steps
    cp = g.get_contact_plan_from_dyn_optimizer(m)
    tr = g.generate_eff_traj(m, cp)
    for _ in range(20):
        e = r.irange(0, ne - 1)
        ph, at = plan[e]
        t = r.uni(0, n - 1)
        d = r.irange(0, 2)
        prev = [i for i, p in enumerate(ph) if p[1] < t]
        inside = [i for i, p in enumerate(ph) if p[0] <= t <= p[1]]
        if inside or not prev or prev[-1] + 1 == len(ph):
            p, v = at[inside[0] if inside else 0 if not prev else prev[-1]][d], 0.
        else:
            i = prev[-1]
            p, v = piece(t, ph[i][1], ph[i + 1][0], at[i][d], at[i + 1][d], at[i][2] + g.z_offset if d == 2 else None)
        f = tr['E%d' % e][d]
        c.check('between_steps', max(abs(f.eval(t) - p), abs(f.deval(t) - v)), tol, 'contacts %s at %.17g axis %d' % (ph, t, d))
    c.sig = 's%d:%s' % (n, ['%d%s%s' % (len(p[0]), 'g' if p[0][0][0] == 0 else 'a', 'g' if p[0][-1][1] == n - 1 else 'a') for p in plan])
    c.nontrivial = True
    c.sample = '%d steps, contacts %s' % (n, [p[0] for p in plan])


def via(c):
    r = c.rng
    n, dt, dim = r.irange(4, 60), r.choice([.01, .1, r.uni(.005, .2)]), r.irange(1, 8)
    k = r.irange(1, 4)
    # instants increase strictly and the first is after the start; the last may be the end of the motion
    steps = sorted(r.sample(range(1, n + 1), min(k, n)))
    if r.chance(.3):
        steps[-1] = n
    if r.chance(.3):
        steps = [s - r.uni(0, .4) if s < n else s for s in steps]
    k = len(steps)
    vias = [np.hstack([s * dt, np.array(r.vec(dim))]) for s in steps]
    T = TrajectoryInterpolator()
    T.num_time_steps, T.init, T.end = n, np.array(r.vec(dim)), np.array(r.vec(dim))
    T.generate_trajectory(k, vias, dt)
    knots = [(0., T.init)] + [(v[0] / dt, v[1:]) for v in vias]
    if knots[-1][0] != n:
        knots.append((float(n), T.end))
    tol = 1e-9
    if any(0 < b[0] - a[0] < .05 for a, b in zip(knots, knots[1:])):
        c.count('short_pieces')
        return
    for t in list(range(n)) + [r.uni(0, n) for _ in range(10)]:
        got = T.evaluate_trajecory(t)
        i = [j for j in range(len(knots) - 1) if knots[j][0] <= t <= knots[j + 1][0]][0]
        for d in range(dim):
            p, v = piece(t, knots[i][0], knots[i + 1][0], knots[i][1][d], knots[i + 1][1][d])
            c.check('via_trajectory', abs(got[0, d] - p), tol, 'instants %s at %g' % (steps, t))
            c.check('via_velocity', abs(T.poly_traj[d].deval(t) - v), tol, 'instants %s at %g' % (steps, t))
    for s, v in zip(steps, vias):
        c.check('passes_via_point', np.abs(T.evaluate_trajecory(s)[0] - v[1:]).max(), tol, 'instants %s' % steps)
    c.sig, c.nontrivial = 'v%d:%d:%d' % (n, k, dim), True
    c.sample = 'via points at steps %s of %d' % (steps, n)


def poly(c):
    r = c.rng
    # random polynomials: derivative, constraints, piece lookup
    k = r.irange(1, 8)
    a = np.array(r.vec(k))
    f = Polynomial(coeffs=np.vstack([a, np.arange(k)]).T)
    keep = f.coeffs.copy()
    for _ in range(10):
        x = r.choice([0., r.uni(-2, 2), r.uni(0, 5)])
        s = 1 + np.polyval(np.abs(a[::-1]), abs(x))
        c.check('polynomial_value', abs(f.eval(x) - P.polyval(x, a)), 1e-12 * s, 'at %g' % x)
        c.check('polynomial_derivative', abs(f.deval(x) - (P.polyval(x, P.polyder(a)) if k > 1 else 0.)), 1e-12 * s * k * (1 + 1 / (abs(x) + .1)), 'at %g' % x)
    c.require('polynomial_unchanged', np.array_equal(keep, f.coeffs), '')
    y = r.uni(-3, 3)
    c.check('constant', max(abs(constant_poly(y).eval(x) - y) + abs(constant_poly(y).deval(x)) for x in (0., 1., -2.)), 0., '')
    # fitted through conditions: value, rate and curvature at distinct instants
    g, cond = Polynomial(), []
    x = 0.
    for _ in range(r.irange(1, 3)):
        x += r.uni(.5, 2)
        for o in range(r.irange(1, 3)):
            cond.append((x, r.uni(-2, 2), o))
    if r.chance(.5):
        r.shuffle(cond)
    g.set_constraints(*[[i[j] for i in cond] for j in range(3)])
    if len(cond) > 1:
        g.fit()
        co = g.coeffs[:, 0]
        sc = 1 + np.abs(co).max() * 6 ** len(cond)
        for t, v, o in cond:
            c.check('fitted_condition', abs(P.polyval(t, P.polyder(co, o)) - v), 1e-11 * sc, str(cond))
            if o < 2:
                c.check('fitted_query', abs((g.eval(t) if o == 0 else g.deval(t)) - v), 1e-11 * sc, str(cond))
    t0 = r.uni(0, 3)
    t1 = t0 + r.uni(.5, 4)
    y0, y1, m = r.uni(-2, 2), r.uni(-2, 2), r.choice([None, r.uni(-2, 2)])
    q = poly_points([t0, t1], y0, y1, m)
    for _ in range(6):
        t = r.uni(t0, t1)
        p, v = piece(t, t0, t1, y0, y1, m)
        c.check('rest_to_rest', max(abs(q.eval(t) - p), abs(q.deval(t) - v)), 1e-6, '%g %g' % (t0, t1))
    # lookup
    L, e = PolynominalList(), [0.]
    for i in range(r.irange(1, 6)):
        e.append(e[-1] + r.uni(.2, 2))
        L.append([e[-2], e[-1]], constant_poly(float(i)))
    for _ in range(10):
        i = r.irange(0, len(e) - 2)
        t = r.uni(e[i], e[i + 1])
        c.check('piece_of_time', abs(L.eval(t) - i), 0. if e[i] < t < e[i + 1] else 1., '%s %g' % (e, t))
    c.check('outside', max(abs(L.eval(-1.)), abs(L.eval(e[-1] + 1) - (len(e) - 2))), 0., '')
    c.sig, c.nontrivial = 'p%d:%s' % (k, ''.join(str(i[2]) for i in cond)), True


def one(c):
    k = c.id % 8
    (via if k in (1, 5) else poly if k == 2 else swing)(c)


vk.run('k01_swing', one)
