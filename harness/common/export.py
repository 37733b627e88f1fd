"""Own reading of a plan: its linear interpolation, and the rows each exported file should contain."""
import os
import numpy as np


def lerp(T, Y, t):
    """Y[i] at T[i], linear between, the first and last values outside"""
    T, Y = np.asarray(T, float), np.asarray(Y, float)
    if t <= T[0]:
        return Y[0]
    if t >= T[-1]:
        return Y[-1]
    i = int(np.searchsorted(T, t, side='right')) - 1
    s = (t - T[i]) / (T[i + 1] - T[i])
    return (1 - s) * Y[i] + s * Y[i + 1]


def series(kin, dyn, eff, weight):
    """name -> array with one row for every step of the plan"""
    K, D = kin.kinematics_states, dyn.dynamics_states
    n = len(D)
    forces = np.array([[D[t].effForce(e) for e in range(D[t].effNum())] for t in range(n)])
    arms = np.array([[D[t].effPosition(e) - D[t].com for e in range(D[t].effNum())] for t in range(n)])
    s = dict(
        POSITION=[k.robot_posture.joint_positions for k in K],
        VELOCITY=[k.robot_velocity.joint_velocities for k in K],
        GENERALIZED_POSITION=[np.hstack([k.robot_posture.base_position, k.robot_posture.base_orientation, k.robot_posture.joint_positions]) for k in K],
        GENERALIZED_VELOCITY=[np.hstack([k.robot_velocity.base_linear_velocity, k.robot_velocity.base_angular_velocity, k.robot_velocity.joint_velocities]) for k in K],
        GENERALIZED_ACCELERATION=[np.hstack([k.robot_acceleration.base_linear_acceleration, k.robot_acceleration.base_angular_acceleration, k.robot_acceleration.joint_accelerations]) for k in K],
        COM=[k.com for k in K], LMOM=[k.lmom for k in K], AMOM=[k.amom for k in K],
        FORCES=forces.reshape(n, -1),
        QUATERNION=[k.robot_posture.base_orientation for k in K],
        BASE_ANGULAR_VELOCITY=[k.robot_velocity.base_angular_velocity for k in K],
        CENTROIDAL_FORCES=weight * forces.sum(axis=1),
        CENTROIDAL_MOMENTS=weight * np.cross(arms, forces).sum(axis=1))
    if eff is not None:
        s.update(EFF_POSITION=eff['trajectory_wrt_base'], EFF_VELOCITY=eff['velocity_wrt_base'], EFF_POSITION_ABSOLUTE=eff['trajectory'], EFF_VELOCITY_ABSOLUTE=eff['velocity'])
    return {k: np.array(v, float) for k, v in s.items()}


PAIRS = [1, 0, 3, 2]                                       # right and left exchanged
BACKWARDS = [3, 2, 1, 0]


def legs(v, order):
    return v.reshape(4, 3)[order].reshape(-1)


def files(kind, T, s, weight):
    """file name -> rows, as documented in create_data_file.py"""
    at = lambda k, i: lerp(T, s[k], i / 1000.)
    if kind == 'file':
        N = int(round(T[-1] * 1000))
        names = dict(positions='POSITION', velocities='VELOCITY', generalized_positions='GENERALIZED_POSITION', generalized_velocities='GENERALIZED_VELOCITY', generalized_acceleration='GENERALIZED_ACCELERATION', com_old='COM', lmom_old='LMOM', amom_old='AMOM', forces='FORCES')
        return {'quadruped_%s.dat' % f: np.array([np.hstack([i, at(k, i) * (weight if f == 'forces' else 1.)]) for i in range(N)]) for f, k in names.items()}
    whole = int(T[-1])
    N = 1000 * (whole + (1 if T[-1] - whole > .001 else 0))
    if kind == 'lqr':
        return {'quadruped_positions_abs_with_horizon_part.dat': np.array([np.hstack([i, legs(at('EFF_POSITION_ABSOLUTE', i), BACKWARDS)]) for i in range(N)])}
    six = lambda v: np.hstack([v.reshape(4, 3)[PAIRS], np.zeros((4, 3))]).reshape(-1)
    out = dict(
        positions=lambda i: np.hstack([i, at('POSITION', i)]), velocities=lambda i: np.hstack([i, at('VELOCITY', i)]),
        positions_eff=lambda i: six(at('EFF_POSITION', i)), velocities_eff=lambda i: six(at('EFF_VELOCITY', i)),
        com=lambda i: np.hstack([i, at('COM', i)]), com_vel=lambda i: np.hstack([i, at('LMOM', i) / (weight / 9.81)]),
        centroidal_forces=lambda i: np.hstack([i, at('CENTROIDAL_FORCES', i)]), centroidal_moments=lambda i: np.hstack([i, at('CENTROIDAL_MOMENTS', i)]),
        quaternion=lambda i: np.hstack([i, at('QUATERNION', i)]), base_ang_velocities=lambda i: np.hstack([i, at('BASE_ANGULAR_VELOCITY', i)]),
        positions_abs=lambda i: np.hstack([i, legs(at('EFF_POSITION_ABSOLUTE', i), PAIRS)]), velocities_abs=lambda i: np.hstack([i, legs(at('EFF_VELOCITY_ABSOLUTE', i), PAIRS)]),
        contact_activation=lambda i: np.hstack([i, legs(at('FORCES', i), PAIRS).reshape(4, 3)[:, 2]]),
        gain_ratio=lambda i: np.hstack([i, np.zeros(8)]))
    return {'quadruped_%s.dat' % k: np.array([f(i) for i in range(N)]) for k, f in out.items()}


def compare(c, folder, kind, T, s, weight, what):
    want = files(kind, T, s, weight)
    have = sorted(os.listdir(folder))
    c.require('exported_files', have == sorted(want), '%s: %s' % (kind, sorted(set(have) ^ set(want))))
    for f in have:
        if f not in want:
            continue
        a, b = np.loadtxt(os.path.join(folder, f), ndmin=2), want[f]
        if not c.require('exported_shape', a.shape == b.shape, '%s %s %s instead of %s; %s' % (kind, f, a.shape, b.shape, what)):
            continue
        if f == 'quadruped_contact_activation.dat':
            c.require('exported_contacts', np.array_equal(a[:, 0], b[:, 0]) and np.all((a[:, 1:] == (b[:, 1:] > 0)) | (np.abs(b[:, 1:]) < 1e-12)), what)
            c.count('contact_rows', int((a[:, 1:] == 1).sum()))
            continue
        scale = np.abs(b).max(axis=0) + 1e-3
        e = np.abs(a - b) / scale
        c.check('exported_value', e.max(), 2e-8 if kind == 'file' else 1e-11, '%s %s row %d column %d; %s' % (kind, f, e.max(axis=1).argmax(), e.max(axis=0).argmax(), what))
        c.count('rows', len(a))
