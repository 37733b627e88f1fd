"""K04: plans sampled at any time and written to files are the plan."""
import os
import shutil
import tempfile
import numpy as np
import vk
import export
from pymomentum import *
from momentumopt.kinoptpy.create_data_file import create_file, create_qp_files, create_lqr_files
from momentumopt.motion_execution import desired_state, interpolate
from momentumopt.motion_planner import create_time_vector


class Gains(object):
    def __init__(self, g):
        self.g = g

    def forceGain(self, t):
        return self.g[t]


def make(r, n, nj, dts):
    kin, dyn = KinematicsSequence(), DynamicsSequence()
    kin.resize(n, nj)
    dyn.resize(n)
    big = r.choice([1., 1., 1e3, 1e-3])
    for t, k in enumerate(kin.kinematics_states):
        k.com, k.lmom, k.amom = r.vec(3) * big, r.vec(3) * big, r.vec(3) * big
        k.robot_posture.base_position, k.robot_posture.joint_positions = r.vec(3) * big, r.vec(nj) * big
        q = r.vec(4)
        k.robot_posture.base_orientation = q / np.linalg.norm(q)
        k.robot_velocity.base_linear_velocity, k.robot_velocity.base_angular_velocity, k.robot_velocity.joint_velocities = r.vec(3) * big, r.vec(3), r.vec(nj)
        k.robot_acceleration.base_linear_acceleration, k.robot_acceleration.base_angular_acceleration, k.robot_acceleration.joint_accelerations = r.vec(3), r.vec(3) * big, r.vec(nj)
    for t, d in enumerate(dyn.dynamics_states):
        d.dt, d.com, d.lmom, d.amom = dts[t], r.vec(3), r.vec(3), r.vec(3)
        for e in range(4):
            on = r.chance(.6)
            d.setEffActivation(e, on)
            d.setEffPosition(e, r.vec(3))
            d.setEffForce(e, np.array([r.normal(), r.normal(), abs(r.normal())]) if on else np.zeros(3))
    eff = {k: np.array([r.vec(12) for _ in range(n)]) for k in ('trajectory', 'velocity', 'trajectory_wrt_base', 'velocity_wrt_base')}
    gains = Gains([np.array([r.vec(9) for _ in range(12)]) for _ in range(n)])
    return kin, dyn, eff, gains


STATE = ['POSITION', 'VELOCITY', 'GENERALIZED_POSITION', 'GENERALIZED_VELOCITY', 'GENERALIZED_ACCELERATION', 'FORCES', 'COM', 'LMOM', 'AMOM']
MOTION = dict(POSITION='EFF_POSITION', VELOCITY='EFF_VELOCITY', POSITION_ABSOLUTE='EFF_POSITION_ABSOLUTE', VELOCITY_ABSOLUTE='EFF_VELOCITY_ABSOLUTE', COM='COM', LMOM='LMOM', AMOM='AMOM', FORCES='FORCES', CENTROIDAL_FORCES='CENTROIDAL_FORCES', CENTROIDAL_MOMENTS='CENTROIDAL_MOMENTS', QUATERNION='QUATERNION', BASE_ANGULAR_VELOCITY='BASE_ANGULAR_VELOCITY')


def one(c):
    r = c.rng
    n, nj = r.irange(1, 12), r.choice([8, 12, 6])
    files = c.id % 4 == 0
    short = files and r.chance(.8)
    if short:
        n = max(n, 2)
    dt = r.choice([.1, .05, .01, .001, r.uni(.002, .3)]) if not short else r.choice([.01, .002, .005, r.uni(.002, .03)])
    dts = [dt] * n if r.chance(.6) else [dt * r.uni(.3, 2) for _ in range(n)]
    weight = r.choice([1., 2.5 * 9.81, r.uni(5, 1000)])
    kin, dyn, eff, gains = make(r, n, nj, dts)
    T = create_time_vector(dyn)
    own = np.concatenate([[0.], np.cumsum(dts[:n - 1])])
    c.require('time_vector_length', len(T) == n, '%d for %d' % (len(T), n))
    c.check('time_vector', np.abs(T - own).max(), 1e-12 * (1 + own[-1]), 'steps %s' % dts)
    if c.nviol:
        return
    s = export.series(kin, dyn, eff, weight)
    s['DYN_FEEDBACK'] = np.array(gains.g)
    asked = [(0, k, desired_state(k, T, optimized_sequence=kin, optimized_dyn_plan=dyn, dynamics_feedback=gains), k) for k in STATE + ['DYN_FEEDBACK']]
    asked += [(1, k, interpolate(k, T, optimized_motion_eff=eff, optimized_sequence=kin, optimized_dyn_plan=dyn, dynamics_feedback=gains, robot_weight=weight), v) for k, v in list(MOTION.items()) + [('DYN_FEEDBACK', 'DYN_FEEDBACK')]]
    if r.chance(.5):
        asked = r.sample(asked, 8)
    for how, k, f, name in asked:
        Y = s[name]
        scale = np.abs(Y).max() + 1e-9
        what = '%s %s of %d steps' % ('interpolate' if how else 'desired_state', k, n)
        queries = [r.uni(T[0], T[-1]) for _ in range(6)] + [T[-1] + r.uni(0, 2), -r.uni(0, 1)]
        for i in r.sample(range(n), min(n, 4)):
            queries += [T[i], np.nextafter(T[i], -1), np.nextafter(T[i], 9), T[i] + 1e-9]
        for i in r.sample(range(n), min(n, 2)):
            if i + 1 < n:
                queries.append(.5 * (T[i] + T[i + 1]))
        r.shuffle(queries)                                 # the order of the questions does not matter
        for t in queries:
            v = np.array(f(t))
            if not c.require('sampled_shape', v.shape == Y[0].shape, '%s: %s' % (what, v.shape)):
                break
            inside = T[0] <= t <= T[-1]
            slope = np.abs(np.diff(Y, axis=0)).max() / np.diff(T).min() if n > 1 else 0
            c.check('sampled_inside' if inside else 'sampled_outside', np.abs(v - export.lerp(T, Y, t)).max(), 1e-11 * scale + 1e-15 * slope, '%s at %.17g' % (what, t))
            if t in T:
                c.check('sampled_at_instant', np.abs(v - Y[list(T).index(t)]).max(), 1e-12 * scale, '%s at instant %.17g' % (what, t))
    # asking changes nothing
    s2 = export.series(kin, dyn, eff, weight)
    c.require('plan_unchanged_by_sampling', all(np.array_equal(s[k], s2[k]) for k in s2), '')
    if files and n > 1 and T[-1] > .0021:
        box = tempfile.mkdtemp(prefix='k04')
        here = os.getcwd()
        kinds = ['file'] + (['qp'] if nj else []) + ['lqr']
        try:
            for kind in kinds if c.id % 16 == 0 else [r.choice(kinds)]:
                d = os.path.join(box, kind)
                os.mkdir(d)
                os.chdir(d)
                if kind == 'file':
                    create_file(T, kin, dyn, r.choice([None, gains]), weight)
                elif kind == 'qp':
                    create_qp_files(T, eff, kin, dyn, r.choice([None, gains]), weight)
                else:
                    create_lqr_files(T, eff, kin, dyn, gains, weight)
                os.chdir(here)
                export.compare(c, d, kind, T, s, weight, '%d steps until %.12g' % (n, T[-1]))
                c.count('exports_' + kind)
            s2 = export.series(kin, dyn, eff, weight)
            c.require('plan_unchanged_by_export', all(np.array_equal(s[k], s2[k]) for k in s2), '')
        finally:
            os.chdir(here)
            shutil.rmtree(box)
    c.sig = '%d:%d:%d:%d' % (n, nj, files, len(set(dts)) > 1)
    c.nontrivial = n > 1
    c.sample = '%d steps until %.4g s' % (n, T[-1])


vk.run('k04_export', one)
