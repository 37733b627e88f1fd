"""K02: the kinematic planner on synthetic legged robots; every step is recomputed from the plan with own Jacobians and least squares."""
import numpy as np
import pinocchio as pin
import toyrobots
import vk
from scipy.interpolate import CubicSpline
from traj import through
from pymomentum import *
from momentumopt.kinoptpy.momentum_kinematics_optimizer import MomentumKinematicsOptimizer
from momentumopt.robots.blmc_robot_wrapper import QuadrupedWrapper, Quadruped12Wrapper, BipedWrapper

KINDS = [QuadrupedWrapper, Quadruped12Wrapper, BipedWrapper]


class Setting(object):
    def __init__(self, **k):
        self.v = {str(globals()[a]): b for a, b in k.items()}    # enumerators of different types compare equal

    def get(self, p):
        return self.v[str(p)]


class Eyes(object):
    """own view of the robot: positions, velocities, momentum and their Jacobians from fresh data"""

    def __init__(self, model, effs, hips):
        self.m, self.d = model, model.createData()
        self.effs, self.hips = [model.getFrameId(e) for e in effs], [model.getFrameId(h) for h in hips]
        self.mass = sum(model.inertias[i].mass for i in range(1, model.njoints))

    def look(self, q, dq):
        m, d = self.m, self.d
        pin.forwardKinematics(m, d, q, dq)
        pin.updateFramePlacements(m, d)
        com, mom, masses = np.zeros(3), np.zeros(6), 0.
        for i in range(1, m.njoints):
            I = m.inertias[i]
            p = d.oMi[i].act(I.lever)
            com += I.mass * p
            masses += I.mass
            h = d.oMi[i].act(I * d.v[i])                    # about the world origin
            mom[:3] += h.linear
            mom[3:] += h.angular
        com /= masses
        mom[3:] -= np.cross(com, mom[:3])
        at = lambda ids: np.array([d.oMf[i].translation.copy() for i in ids])
        vel = lambda ids: np.array([pin.getFrameVelocity(m, d, i, pin.ReferenceFrame.LOCAL_WORLD_ALIGNED).linear.copy() for i in ids])
        return dict(com=com, mom=mom, eff=at(self.effs), hip=at(self.hips), veff=vel(self.effs), vhip=vel(self.hips), R=d.oMf[m.getFrameId('base_link')].rotation.copy())

    def jac(self, q):
        """the task Jacobian column by column, from velocities under unit motions"""
        m = self.m
        n, k = m.nv, len(self.effs)
        J = np.zeros((6 + 3 * k + n - 6, n))
        for i in range(n):
            e = np.zeros(n)
            e[i] = 1.
            l = self.look(q, e)
            J[:6, i], J[6:6 + 3 * k, i] = l['mom'], l['veff'].reshape(-1)
        J[6 + 3 * k:, 6:] = np.eye(n - 6)
        return J

    def drift(self, q, dq, h=1e-6):
        """rate of the task velocities at constant dq"""
        k = len(self.effs)
        a, b = self.look(pin.integrate(self.m, q, h * dq), dq), self.look(pin.integrate(self.m, q, -h * dq), dq)
        f = lambda l: np.hstack([l['mom'], l['veff'].reshape(-1), np.zeros(self.m.nv - 6)])
        D = (f(a) - f(b)) / (2 * h)
        # the same from the package's own recursion, without the noise of the differences
        d = self.m.createData()
        pin.forwardKinematics(self.m, d, q, dq)
        pin.computeJointJacobiansTimeVariation(self.m, d, q, dq)
        pin.updateFramePlacements(self.m, d)
        E = np.zeros(len(D))
        for i, e in enumerate(self.effs):
            E[6 + 3 * i:9 + 3 * i] = pin.getFrameJacobianTimeVariation(self.m, d, e, pin.ReferenceFrame.LOCAL_WORLD_ALIGNED)[:3].dot(dq)
        E[:6] = pin.dccrba(self.m, d, q, dq).dot(dq)
        assert np.abs(D - E).max() < 1e-6 * (1 + self.mass) * (1 + np.abs(dq).max() ** 3), np.abs(D - E)
        return E


def slerp0(r):
    return np.array(r.vec(3)) * r.choice([0., .02, .1])


def plan(r, kind, eyes, q0, n, dt, ne):
    """contacts, swings, flights and a centre of mass near the posture q0"""
    l = eyes.look(q0, np.zeros(eyes.m.nv))
    style = r.choice(['stand', 'stand', 'swing', 'swing', 'hop', 'hop', 'air'])
    act = np.ones((n, ne), bool)
    pos = np.array([l['eff']] * n)
    if style == 'swing' and n >= 6:
        for _ in range(r.irange(1, 3)):
            e = r.irange(0, ne - 1)
            a = r.irange(1, n - 4)
            b = min(n - 2, a + r.irange(1, max(1, n // 3)))
            if act[a - 1:b + 2, e].all():
                act[a:b + 1, e] = False
                pos[b + 1:, e, :2] += np.array(r.vec(2)) * .02
        if r.chance(.3):                               # one leg does not come down again
            a = r.irange(1, n - 2)
            e = r.irange(0, ne - 1)
            if act[a - 1:, e].all():
                act[a:, e] = False
    elif style == 'hop' and n >= 6:
        a = r.irange(1, n - 4)
        b = min(n - 2, a + r.irange(1, max(1, n // 3)))
        act[a:b + 1] = False
        if r.chance(.3):
            act[a:] = False
    elif style == 'air' and n >= 4:
        act[:r.irange(1, n - 2)] = False
    lat = 1. if kind is not QuadrupedWrapper else 0.
    A, w, ph = np.array(r.vec(3)) * np.array([.01, .01 * lat, .01]) * r.choice([0., 1., 1.]), r.uni(.5, 3), r.uni(0, 6)
    t = np.arange(n) * dt
    com = l['com'] + np.outer(np.sin(w * t + ph) - np.sin(ph), A)
    com_rate = np.outer(w * np.cos(w * t + ph), A)
    amom = np.array([r.vec(3) for _ in range(n)]) * r.choice([0., 0., .01])
    return style, act, pos, com, eyes.mass * com_rate, amom, np.abs(A).max() * w


def log3(R):
    return pin.log3(R)


def one(c):
    r = c.rng
    kind = r.choice(KINDS)
    toyrobots.SCALE.update(mass=r.choice([1., r.logu(.3, 20)]), leg=r.choice([1., r.uni(.7, 2)]), body=r.choice([1., r.uni(.7, 2)]))
    second = c.id % 4 == 3
    n, dt = r.irange(2, 24) if not second else r.irange(2, 8), r.choice([.01, .05, .1, r.uni(.005, .1)]) if not second else r.choice([.01, .005, .029, .02, r.uni(.004, .03)])
    probe = kind()
    ne, nj = len(probe.effs), probe.num_ctrl_joints
    per = nj // ne
    default = np.tile(([r.uni(-.1, .1)] if per == 3 else []) + [r.uni(.5, 1.), -r.uni(1., 1.9)], ne)
    if r.chance(.5) and ne == 4:
        default[2 * per:] *= np.array([1] * (per - 2) + [-1, -1] * 1 + [1] * (per - 2) + [-1, -1])
    s = Setting(PlannerDoubleParam_TimeStep=dt, PlannerIntParam_NumTimesteps=n, PlannerIntParam_NumDofs=nj, PlannerVectorParam_KinematicDefaultJointPositions=default, PlannerDoubleParam_RobotWeight=0.)
    m = MomentumKinematicsOptimizer()
    m.initialize(s, max_iterations=50, RobotWrapper=kind)
    eyes = Eyes(m.robot.model, m.eff_names, m.hip_names)
    s.v[str(PlannerDoubleParam_RobotWeight)] = W = eyes.mass * 9.81
    ik, so = m.inv_kin, m.snd_order_inv_kin
    m.endeff_traj_generator.z_offset = r.choice([.1, .05, .02])
    ik.w_lin_mom_tracking, ik.w_ang_mom_tracking = r.choice([1., 10., 1000.]), r.choice([1., .1, 10.])
    ik.w_endeff_contact, ik.w_endeff_tracking = r.choice([1., 30., 100.]), r.choice([1., 10.])
    ik.p_endeff_tracking, ik.p_com_tracking = r.choice([1., 3., 1. / dt]), eyes.mass * r.choice([.4, 1., r.uni(.2, 1)])
    ik.w_joint_regularization = r.choice([.001, .01, .05])
    m.reg_orientation, m.reg_joint_position = r.choice([1e-2, .1, 0.]), r.choice([2., .5, 0.])
    # a reachable start: the default posture at some height
    q0 = pin.neutral(m.robot.model)
    q0[2] = r.uni(.1, .5) * toyrobots.SCALE['leg']
    q0[7:] = default
    style, act, pos, com, lmom, amom, speed = plan(r, kind, eyes, q0, n, dt, ne)
    seq = DynamicsSequence()
    seq.resize(n)
    for t, d in enumerate(seq.dynamics_states):
        d.com, d.lmom, d.amom, d.dt = com[t], lmom[t], amom[t], dt
        for e in range(ne):
            d.setEffActivation(e, bool(act[t, e]))
            d.setEffPosition(e, pos[t, e])
    ini = DynamicsState()
    l0 = eyes.look(q0, np.zeros(eyes.m.nv))
    ini.com, ini.lmom, ini.amom = l0['com'], lmom[0] * 0, amom[0] * 0
    for e in range(ne):
        ini.setEffPosition(e, l0['eff'][e])
        ini.setEffActivation(e, True)
    via = r.chance(.3) and n >= 4
    if via:
        k = r.irange(1, 2)
        st = sorted(r.sample(range(1, n), k))
        m.n_via_joint, m.via_joint = k, [np.hstack([x * dt, default + np.array(r.vec(nj)) * .1]) for x in st]
        m.n_via_base, m.via_base = k, [np.hstack([x * dt, np.array(r.vec(3)) * .05]) for x in st]
    m.use_second_order_inv_kin = second
    steps = []
    if second:
        so.use_hierarchy = r.chance(.2) and ne == 4
        so.w_joint_regularization = r.choice([.1, 0., 1.])
        so.p_com_tracking = r.choice([100., 10.])
        orig = so.step

        def watched(q, dq, *a):
            ddq = orig(q, dq, *a)
            steps.append((np.array(q), np.array(dq), [np.array(x.coeffs()) if isinstance(x, pin.Quaternion) else np.array(x) for x in a], np.array(ddq)))
            return ddq
        so.step = watched
    # the initial posture
    m.optimize_initial_position(ini)
    l = eyes.look(m.q_init, np.zeros(eyes.m.nv))
    miss = max(np.abs(l['eff'] - l0['eff']).max(), np.abs(l['com'] - l0['com']).max()) / (2 * toyrobots.SCALE['leg'] + toyrobots.SCALE['body'])
    c.require('start_at_rest', np.abs(m.dq_init).max() == 0., '')
    c.count('initial')
    if not miss < .02:
        c.count('initial_missed')
        return
    if miss > 1e-3:
        c.count('initial_far')
    for rep in range(2 if r.chance(.3) else 1):
        if rep:
            # a new plan on the same planner: the initial posture stays
            del steps[:]
            com = com + np.outer(np.linspace(0, 1, n), np.array([.005, 0, 0]))
            for t, d in enumerate(seq.dynamics_states):
                d.com = com[t]
            c.count('replanned')
        if second:
            c.count('second_order_plans')
        try:
            m.optimize(ini, None, seq)
        except (ValueError, np.linalg.LinAlgError):
            if not (second and steps and not np.abs(steps[-1][1]).max() < 100):
                raise
            c.count('diverged')                        # swings faster than the gains can follow
            return
        if second and not np.abs(np.array([x[1] for x in steps])).max() < 100:
            c.count('diverged')
            return
        judge(c, r, m, s, eyes, seq, dict(n=n, dt=dt, ne=ne, act=act, pos=pos, com=com, lmom=lmom, amom=amom, W=W, second=second, via=via, default=default, q0=q0, l0=l0, style=style, speed=speed, steps=steps, ini=ini))
        if c.nviol:
            break
    c.sig = '%s:%d:%s:%s%s' % (kind.__name__[:5], n, style, '2' if second else '1', 'v' if via else '')
    c.nontrivial = True
    c.sample = '%s, %d steps of %.4g s, %s, %s order' % (kind.__name__, n, dt, style, 'second' if second else 'first')


def judge(c, r, m, s, eyes, seq, p):
    n, dt, ne, model = p['n'], p['dt'], p['ne'], m.robot.model
    ik = m.inv_kin
    L, M = np.abs(m.q_init[:3]).max() + 2 * toyrobots.SCALE['leg'] + toyrobots.SCALE['body'], eyes.mass
    what = '%s %d steps of %g' % (p['style'], n, dt)
    # the inputs are what they were
    for t, d in enumerate(seq.dynamics_states):
        c.require('plan_unchanged', np.array_equal(d.com, p['com'][t]) and np.array_equal(d.lmom, p['lmom'][t]) and np.array_equal(d.amom, p['amom'][t]) and all(np.array_equal(d.eff(e), p['pos'][t, e]) for e in range(ne)), what + ' step %d' % t)
    c.check('reads_plan', max(np.abs(m.com_dyn - p['com']).max(), np.abs(m.lmom_dyn - p['lmom']).max(), np.abs(m.amom_dyn - p['amom']).max()), 0., what)
    q0 = m.q_init
    # what is reported for a step is one configuration of the robot
    ks = m.kinematics_sequence.kinematics_states
    c.require('sequence_length', len(ks) == n, '%d %s' % (len(ks), what))
    Q, V = [], []
    for t in range(n):
        k = ks[t]
        q = np.hstack([k.robot_posture.base_position, k.robot_posture.base_orientation, k.robot_posture.joint_positions])
        dq = np.hstack([k.robot_velocity.base_linear_velocity, k.robot_velocity.base_angular_velocity, k.robot_velocity.joint_velocities])
        Q.append(q)
        V.append(dq)
        c.require('sequence_is_the_motion', np.array_equal(q, m.q_kin[t]) and np.array_equal(dq, m.dq_kin[t]) and np.array_equal(k.robot_posture.generalized_joint_positions, q) and np.array_equal(k.robot_velocity.generalized_joint_velocities, dq), what + ' step %d' % t)
        c.check('unit_quaternion', abs(np.linalg.norm(q[3:7]) - 1), 1e-9, what)
        l = eyes.look(q, dq)
        v = 1 + np.abs(dq).max()
        c.check('reported_com', np.abs(k.com - l['com']).max(), 1e-10 * L, what + ' step %d' % t)
        c.check('reported_momentum', max(np.abs(k.lmom - l['mom'][:3]).max(), np.abs(k.amom - l['mom'][3:]).max()), 1e-10 * M * L * L * v, what + ' step %d' % t)
        c.check('reported_effectors', np.abs(m.motion_eff['trajectory'][t] - l['eff'].reshape(-1)).max(), 1e-10 * L, what + ' step %d' % t)
        c.check('reported_effector_velocities', np.abs(m.motion_eff['velocity'][t] - l['veff'].reshape(-1)).max(), 1e-10 * L * v, what + ' step %d' % t)
        c.check('reported_effectors_from_hip', np.abs(m.motion_eff['trajectory_wrt_base'][t] - (l['eff'] - l['hip']).reshape(-1)).max(), 1e-10 * L, what + ' step %d' % t)
        c.check('reported_effector_velocities_from_hip', np.abs(m.motion_eff['velocity_wrt_base'][t] - (l['veff'] - l['vhip']).reshape(-1)).max(), 1e-10 * L * v, what + ' step %d' % t)
        c.require('internal_copies', np.array_equal(m.com_kin[t], k.com) and np.array_equal(m.lmom_kin[t], k.lmom) and np.array_equal(m.amom_kin[t], k.amom), what)
    Q, V = np.array(Q), np.array(V)
    c.require('starts_at_initial_posture', np.array_equal(Q[0], q0), what)
    c.require('starts_at_rest', not V[0].any(), what)
    # the joint and base references
    jd, bd = np.zeros((n, len(q0) - 7)), np.zeros((n, 3))
    for t in range(n):
        if p['via']:
            for j in range(len(q0) - 7):
                kn = [(0., q0[7 + j])] + [(x[0] / dt, x[1 + j]) for x in m.via_joint] + [(float(n), q0[7 + j])]
                jd[t, j] = through(t, kn)[0]
            for j in range(3):
                kn = [(0., 0.)] + [(x[0] / dt, x[1 + j]) for x in m.via_base] + [(float(n), 0.)]
                bd[t, j] = through(t, kn)[0]
        else:
            jd[t] = q0[7:]
    c.check('joint_reference', max(np.abs(m.joint_des.T - jd).max(), np.abs(m.base_des.T - bd).max()), 1e-9, what)
    for t in range(n):
        c.require('contact_reference', list(m.endeff_contact[t]) == [float(x) for x in p['act'][t]], what)
        for e in range(ne):
            if p['act'][t, e]:
                c.check('stance_reference', max(np.abs(m.endeff_pos_ref[t, e] - p['pos'][t, e]).max(), np.abs(m.endeff_vel_ref[t, e]).max()), 1e-8 / dt, what + ' step %d' % t)
    (second_order if p['second'] else first_order)(c, r, m, eyes, p, Q, V, jd, bd, what)


def same_step(c, key, x, H, f, what):
    """x solves H x = f"""
    best = np.linalg.solve(H, f)
    d = x - best
    # in the measure of the cost, and component by component
    c.check(key, np.sqrt(max(0., d.dot(H).dot(d))), 1e-6 * (1e-3 + np.sqrt(max(0., best.dot(H).dot(best)))), what)
    c.check(key, np.abs(d).max(), (1e-9 + 3e-14 * np.linalg.cond(H)) * (np.abs(best).max() + 1e-3), what + ' componentwise')


def first_order(c, r, m, eyes, p, Q, V, jd, bd, what):
    n, dt, ne, ik, model = p['n'], p['dt'], p['ne'], m.inv_kin, m.robot.model
    nv = model.nv
    hold = np.hstack([p['ini'].lmom, p['ini'].amom])
    lz = hold[2]
    for t in range(n - 1):
        q, dq = Q[t], V[t + 1]
        c.check('integrates', np.abs(Q[t + 1] - pin.integrate(model, q, dq * dt)).max(), 1e-11 * (1 + np.abs(dq).max()), what + ' step %d' % t)
        J, l = eyes.jac(q), eyes.look(q, V[t])
        flight = not p['act'][t].any()
        v = np.zeros(J.shape[0])
        if flight:
            lz -= p['W'] * dt
            mom = np.hstack([hold[:2], lz, hold[3:]])
        else:
            Rq = pin.Quaternion(Q[t][6], Q[t][3], Q[t][4], Q[t][5]).matrix()
            goal = pin.rpy.rpyToMatrix(bd[t].reshape(3, 1) if False else bd[t])
            mom = np.hstack([p['lmom'][t], p['amom'][t] + m.reg_orientation * pin.log3(goal.dot(Rq.T))])
            hold, lz = l['mom'], p['lmom'][t, 2]
        v[:6] = mom
        v[:3] += ik.p_com_tracking * (p['com'][t] - l['com'])
        w = [ik.w_lin_mom_tracking] * 3 + [ik.w_ang_mom_tracking] * 3
        for e in range(ne):
            v[6 + 3 * e:9 + 3 * e] = m.endeff_vel_ref[t, e] + ik.p_endeff_tracking * (m.endeff_pos_ref[t, e] - l['eff'][e])
            w += [ik.w_endeff_contact if p['act'][t, e] else ik.w_endeff_tracking] * 3
        v[6 + 3 * ne:] = m.reg_joint_position * (jd[t] - q[7:])
        w = np.array(w + [ik.w_joint_regularization] * (nv - 6))
        H = J.T.dot(w[:, None] * J) + 1e-6 * np.eye(nv)
        if flight:
            A = J[:6]
            U = np.linalg.svd(A)[2][6:]
            c.check('flight_momentum', np.abs(A.dot(dq) - mom).max(), 1e-8 * (1 + np.abs(A).max() * np.abs(dq).max() + np.abs(mom).max()), what + ' step %d' % t)
            d = np.linalg.lstsq(A, mom, rcond=None)[0]
            same_step(c, 'flight_step_is_minimiser', U.dot(dq), U.dot(H).dot(U.T), U.dot(J.T.dot(w * v) - H.dot(d)), what + ' step %d' % t)
            c.count('flight_steps')
        else:
            same_step(c, 'step_is_minimiser', dq, H, J.T.dot(w * v), what + ' step %d' % t)
    track(c, m, eyes, p, Q, what)


def second_order(c, r, m, eyes, p, Q, V, jd, bd, what):
    n, dt, ne, so, model = p['n'], p['dt'], p['ne'], m.snd_order_inv_kin, m.robot.model
    nv, steps = model.nv, p['steps']
    c.require('inner_steps', n < 2 or (len(steps) and len(steps) % (n - 1) == 0), '%d steps in %d intervals' % (len(steps), n - 1))
    if n < 2 or c.nviol:
        return
    K = len(steps) // (n - 1)
    h = dt / K
    c.check('inner_step_length', abs(h - .001), .0006, '%s: %d inner steps' % (what, K))
    T = np.arange(n) * dt
    spl = [CubicSpline(T, x) for x in (p['com'], np.hstack([p['lmom'], p['amom']]), m.endeff_pos_ref, m.endeff_vel_ref, jd, bd)] if n > 1 else None
    L = 2 * toyrobots.SCALE['leg'] + toyrobots.SCALE['body'] + 1
    for i, (q, dq, a, ddq) in enumerate(steps):
        it, t = 1 + i // K, i * h
        acom, aori, amom, admom, aep, aev, aea, acon, aj = a
        nx = steps[i + 1] if i + 1 < len(steps) else (Q[-1], V[-1])
        v = 1 + np.abs(dq).max() + np.abs(ddq).max() * h
        c.check('inner_integrates', max(np.abs(nx[1] - (dq + h * ddq)).max(), np.abs(nx[0] - pin.integrate(model, q, h * (dq + h * ddq))).max()), 1e-9 * v * v, '%s inner step %d' % (what, i))
        if i % K == 0:
            c.check('reports_step', max(np.abs(Q[it - 1] - q).max(), np.abs(V[it - 1] - dq).max()), 1e-12, '%s step %d' % (what, it))
        ref = [f(t) for f in spl]
        rate = [f(t, 1) for f in spl]
        e = max(np.abs(acom - ref[0]).max(), np.abs(amom - ref[1]).max(), np.abs(aep - ref[2]).max(), np.abs(aev - ref[3]).max(), np.abs(aj - ref[4]).max())
        c.check('reference_of_the_time', e, 1e-8 * (1 + np.abs(ref[3]).max() + np.abs(ref[1]).max()), '%s inner step %d at %g' % (what, i, t))
        e = max(np.abs(admom - rate[1]).max(), np.abs(aea - rate[3]).max())
        c.check('reference_rate_of_the_time', e, 1e-7 * (1 + np.abs(rate[3]).max() + np.abs(rate[1]).max()), '%s inner step %d at %g' % (what, i, t))
        Rr = pin.rpy.rpyToMatrix(ref[5])
        c.check('orientation_of_the_time', np.abs(pin.Quaternion(aori[3], aori[0], aori[1], aori[2]).matrix() - Rr).max(), 1e-9, what)
        c.require('weights_of_the_step', list(acon) == [float(x) for x in p['act'][it]], '%s inner step %d' % (what, i))
        if not r.chance(.2) or np.abs(dq).max() > 30:
            continue
        # the acceleration tracks the references as well as the weights allow
        J, D, l = eyes.jac(q), eyes.drift(q, dq), eyes.look(q, dq)
        des = np.zeros(J.shape[0])
        des[:6] = rate[1] + so.p_mom_tracking * (ref[1] - l['mom'])
        des[:3] += so.p_com_tracking * (ref[0] - l['com'])
        des[3:6] += so.p_orient_tracking * pin.log3(l['R'].T.dot(Rr)) - so.d_orient_tracking * dq[3:6]
        for k in range(ne):
            des[6 + 3 * k:9 + 3 * k] = rate[3][k] + so.p_endeff_tracking * (ref[2][k] - l['eff'][k]) + so.d_endeff_tracking * (ref[3][k] - l['veff'][k])
        des[6 + 3 * ne:] = so.p_joint_regularization * (ref[4] - q[7:]) - so.d_joint_regularization * dq[6:]
        b = des - D
        if so.use_hierarchy:
            F, x = J[6:6 + 3 * ne], b[6:6 + 3 * ne]
            P = np.linalg.pinv(F, 1e-5)
            g = F.T.dot(F.dot(ddq) - x)
            c.check('feet_first', np.abs(g).max(), 1e-9 * (np.abs(F).max() ** 2 * (1 + np.abs(ddq).max()) + np.abs(x).max()), '%s inner step %d' % (what, i))
            N = np.linalg.svd(F)
            rank = (N[1] > 1e-5 * N[1][0]).sum()
            U = N[2][rank:].T
            A = J[:6].dot(U)
            g = A.T.dot(J[:6].dot(ddq) - b[:6])
            c.check('momentum_second', np.abs(g).max(), 1e-8 * (np.abs(J[:6]).max() ** 2 * (1 + np.abs(ddq).max()) + np.abs(b[:6]).max() * np.abs(J[:6]).max()), '%s inner step %d' % (what, i))
            c.count('hierarchy_steps')
            continue
        w = [so.w_lin_mom_tracking] * 3 + [so.w_ang_mom_tracking] * 3
        for k in range(ne):
            w += [so.w_endeff_contact if p['act'][it, k] else so.w_endeff_tracking] * 3
        w = np.array(w + [so.w_joint_regularization] * (nv - 6))
        H = J.T.dot(w[:, None] * J) + 1e-6 * np.eye(nv)
        same_step(c, 'acceleration_is_minimiser', ddq, H, J.T.dot(w * b), '%s inner step %d' % (what, i))
    track(c, m, eyes, p, Q, what)


def track(c, m, eyes, p, Q, what):
    """standing robots follow their references"""
    if p['style'] != 'stand' or p['via']:
        return
    L = toyrobots.SCALE['leg']
    kind = '2' if p['second'] else '1'
    foot = com = 0.
    for t in range(p['n']):
        l = eyes.look(Q[t], np.zeros(eyes.m.nv))
        foot = max(foot, np.abs(l['eff'] - p['pos'][t]).max())
        com = max(com, np.abs(l['com'] - p['com'][t]).max())
    c.peak('foot' + kind, foot / L)
    c.peak('com' + kind, com / L)
    c.count('standing')
    c.check('standing_feet', foot, 0.2 * L, what)
    c.check('standing_com', com, 0.05 * L, what)
    if foot > 0.06 * L or com > 0.012 * L:
        c.count('standing_poor')


vk.run('k02_ik', one)
