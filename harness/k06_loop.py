"""K06: the kino-dynamic planning loop: who is handed what, and what comes out."""
import os
import re
import shutil
import sys
import tempfile
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import vk
import export
from pymomentum import *
from pysolverlqr import *
from momentumopt.motion_planner import MotionPlanner, create_time_vector
from momentumopt import kino_dyn_planner as kdp
from momentumopt.kinoptpy.momentum_kinematics_optimizer import MomentumKinematicsOptimizer
from momentumopt.robots.blmc_robot_wrapper import QuadrupedWrapper, Quadruped12Wrapper, BipedWrapper

CFG = os.path.join(os.environ['VK_VERIF'], 'harness/cfg')
ROBOTS = [('cfg_solo8_trot', QuadrupedWrapper, 4, 8), ('cfg_solo12_jump', Quadruped12Wrapper, 4, 12), ('cfg_bolt_jump', BipedWrapper, 2, 6)]
EFFS = ['rf', 'lf', 'rh', 'lh']
FIRST = ['w_lin_mom_tracking', 'w_ang_mom_tracking', 'w_endeff_contact', 'w_endeff_tracking', 'p_endeff_tracking', 'p_com_tracking', 'w_joint_regularization']
SECOND = FIRST + ['d_endeff_tracking', 'p_orient_tracking', 'd_orient_tracking', 'p_joint_regularization', 'd_joint_regularization']


def put(text, **kw):
    for k, v in kw.items():
        v = ('[' + ', '.join('%.17g' % x for x in v) + ']') if isinstance(v, (list, np.ndarray)) else ('%.17g' % v if isinstance(v, float) else str(v))
        text, m = re.subn(r'(?m)^  (%s):.*$' % k, lambda g: '  %s: %s' % (k, v), text)
        assert m, k
    return text


def block(text, name, lines):
    """replace the body of a nested entry"""
    text, m = re.subn(r'(?m)^  %s:.*\n((?:(?:    .*|  - .*|\s*#.*|\s*)\n)*)' % name, lambda g: '  %s:\n%s' % (name, ''.join(x + '\n' for x in lines)), text, count=1)
    assert m, name
    return text


def vec(v):
    return '[' + ', '.join('%.17g' % x for x in v) + ']'


def contacts(r, text, ne, n, dt):
    style = r.choice(['stand', 'step', 'jump'])
    a = r.irange(2, max(2, n - 4))
    b = min(n - 2, a + r.irange(1, 3))
    who = r.choice([[0], [1], [0, 3] if ne == 4 else [0], [1, 2] if ne == 4 else [1]])
    shift = np.array([r.uni(-.02, .02), r.uni(-.01, .01)])
    for e in range(ne):
        p = [float(x) for x in re.search(r'eef_%s: \[([^\]]*)\]' % EFFS[e], text).group(1).split(',')][1:4]
        row = lambda t0, t1, p: '  - ' + vec([t0, t1] + list(p) + [1., 0., 0., 0., 1., -1.])
        if style == 'stand' or (style == 'step' and e not in who):
            rows = [row(0., 2 * n * dt, p)]
        else:
            q = list(p) if style == 'jump' else [p[0] + shift[0], p[1] + shift[1], p[2]]
            rows = [row(0., a * dt, p), row(b * dt, 2 * n * dt, q)]
        text = block(text, 'effcnt_' + EFFS[e], rows)
    return text, style


class Recorder(object):
    """hands every call on and notes what went in and what came out"""

    def __init__(self, inner, name, log, plan):
        self.__dict__.update(_inner=inner, _name=name, _log=log, _plan=plan)

    def __getattr__(self, k):
        return getattr(self._inner, k)

    def __setattr__(self, k, v):
        setattr(self._inner, k, v)

    def optimize(self, *a, **k):
        e = dict(name=self._name, a=a, k=k, inputs=self._plan(), before=[snap(x) for x in a])
        self._log.append(e)
        e['result'] = self._inner.optimize(*a, **k)
        e['outputs'] = self._plan()
        return e['result']


def dyn_values(seq):
    return np.array([np.hstack([[d.dt], d.com, d.lmom, d.amom] + [np.hstack([d.effForce(e), d.effPosition(e), [d.effActivation(e)]]) for e in range(d.effNum())]) for d in seq.dynamics_states])


def kin_values(seq):
    return np.array([np.hstack([k.com, k.lmom, k.amom, k.robot_posture.base_position, k.robot_posture.base_orientation, k.robot_posture.joint_positions, k.robot_velocity.base_linear_velocity, k.robot_velocity.base_angular_velocity, k.robot_velocity.joint_velocities]) for k in seq.kinematics_states])


def snap(x):
    n = type(x).__name__
    if n == 'DynamicsSequence':
        return dyn_values(x)
    if n == 'KinematicsSequence':
        return kin_values(x)
    if n == 'DynamicsState':
        return np.hstack([x.com, x.lmom, x.amom])
    if n == 'ContactSequence':
        return n
    return n if not isinstance(x, (bool, int)) else x


def fin(a):
    return np.where(np.isfinite(a), a, 0.)


def same(a, b):
    return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def mapping(c, r, box):
    """every parameter of the inverse kinematics arrives where it is used"""
    name, robot, ne, nj = r.choice(ROBOTS)
    text = open('%s/%s.yaml' % (CFG, name)).read()
    second = r.chance(.5)
    tail = '_second' if second else ''
    keys = (SECOND if second else FIRST)
    val = {k: r.logu(1e-4, 1e4) for k in keys}
    val['swing_traj_via_z'] = r.uni(.01, .4)
    sets = {k + tail: v for k, v in val.items()}
    # the other formulation has other values
    other = '' if second else '_second'
    for k in FIRST + ['swing_traj_via_z']:
        sets[k + other] = r.logu(1e-4, 1e4)
    nvj, nvb = r.irange(0, 3), r.irange(0, 3)
    vj, vb = [np.hstack([.1 * (i + 1), r.vec(nj)]) for i in range(nvj)], [np.hstack([.1 * (i + 1), r.vec(3)]) for i in range(nvb)]
    sets['num_joint_viapoints' + tail], sets['num_base_viapoints' + tail] = nvj, nvb
    sets['use_second_order_inv_kin'] = 'true' if second else 'false'
    pm = r.vec(6)
    if second:
        sets['p_mom_tracking_second'] = pm
    else:
        val['reg_orientation'], val['reg_joint_position'] = r.logu(1e-4, 1e2), r.logu(1e-4, 1e2)
        sets['reg_orientation'], sets['reg_joint_position'] = val['reg_orientation'], val['reg_joint_position']
    text = put(text, **sets)
    text = block(text, 'joint_viapoints' + tail, ['    via%d: %s' % (i, vec(v)) for i, v in enumerate(vj)])
    text = block(text, 'base_viapoints' + tail, ['    via%d: %s' % (i, vec(v)) for i, v in enumerate(vb)])
    f = os.path.join(box, 'cfg_mapping.yaml')
    open(f, 'w').write(text)
    p = kdp.build_optimization(f, robot, False)
    k = p.kin_optimizer
    c.require('order_selected', bool(k.use_second_order_inv_kin) == second, '')
    what = '%s %s' % (name, 'second' if second else 'first')
    ik = k.snd_order_inv_kin if second else k.inv_kin
    for key in keys:
        c.require('parameter_mapped', getattr(ik, key) == val[key], '%s %s: %r instead of %r' % (what, key, getattr(ik, key), val[key]))
    c.require('parameter_mapped', k.endeff_traj_generator.z_offset == val['swing_traj_via_z'], what + ' z_offset')
    if second:
        c.require('parameter_mapped', np.array_equal(np.ravel(ik.p_mom_tracking), pm), what + ' p_mom_tracking')
    else:
        c.require('parameter_mapped', k.reg_orientation == val['reg_orientation'] and k.reg_joint_position == val['reg_joint_position'], what + ' regularisation')
    c.require('via_points_mapped', k.n_via_joint == nvj and k.n_via_base == nvb and len(k.via_joint) == nvj and len(k.via_base) == nvb and all(np.array_equal(np.ravel(a), b) for a, b in list(zip(k.via_joint, vj)) + list(zip(k.via_base, vb))), what)
    c.sig = 'map:%s:%d:%d:%d' % (name, second, nvj, nvb)
    c.nontrivial = True


def arguments(c, r, box):
    f = os.path.join(box, 'cfg_a.yaml')
    open(f, 'w').write('')
    robot, opts = QuadrupedWrapper, [[r.choice(['-i', '--ifile']), f]]
    k = r.irange(0, 2)
    if k == 1:
        robot = Quadruped12Wrapper
        opts.append(['--solo12'])
    elif k == 2:
        robot = BipedWrapper
        opts.append(['--bolt'])
    if r.chance(.5):
        opts.append(['--disable_lqr'])
    r.shuffle(opts)
    got = kdp.parse_arguments([x for o in opts for x in o])
    c.require('arguments_read', got[0] == f and got[1] is robot and got[2] is False, '%s: %s' % (opts, got))
    try:
        kdp.parse_arguments(['-i', f + '.missing'])
        c.violate('missing_config_accepted', '')
    except RuntimeError:
        pass
    c.sig = 'args:%d:%d' % (k, len(opts))


def one(c):
    r = c.rng
    box = tempfile.mkdtemp(prefix='k06')
    here = os.getcwd()
    try:
        if c.id % 4 == 1:
            mapping(c, r, box)
        elif c.id % 16 == 2:
            arguments(c, r, box)
        else:
            loop(c, r, box)
    finally:
        os.chdir(here)
        shutil.rmtree(box)
        plt.close('all')


def loop(c, r, box):
    name, robot, ne, nj = r.choice(ROBOTS)
    text = open('%s/%s.yaml' % (CFG, name)).read()
    n, dt = r.irange(6, 14), r.choice([.02, .05, .03, .1])
    iters = r.choice([0, 1, 1, 2, 2, 3])
    second = r.chance(.3)
    lqr = r.chance(.4)
    heur = r.choice(['TrustRegion', 'SoftConstraint', 'SoftConstraint'] + (['TimeOptimization'] if r.chance(.3) else []))
    text = put(text, kd_iterations=iters, time_step=dt, time_horizon=float('%.12g' % (n * dt)), heuristic=heur, use_second_order_inv_kin='true' if second else 'false', num_com_viapoints=0,
               store_data='false', com_displacement=np.array([r.uni(-.02, .02), 0., 0.]), w_com_track=np.array([r.logu(1, 1e5) for _ in range(3)]), w_lmom_track=np.array([r.logu(.01, 10) for _ in range(3)]), w_amom_track=np.array([r.logu(.01, 10) for _ in range(3)]), time_range=[.5 * dt, 1.5 * dt], max_time_iterations=4)
    text, style = contacts(r, text, ne, n, dt)
    f = os.path.join(box, 'cfg_loop.yaml')
    open(f, 'w').write(text)
    what = '%s %d steps of %g, %d iterations, %s, %s' % (name, n, dt, iters, style, heur)
    p = kdp.build_optimization(f, robot, lqr)
    log = []
    plan = lambda: (dyn_values(p.dyn_optimizer.dynamicsSequence()) if log and 'result' in log[0] or len(log) > 1 else None, kin_values(p.kin_optimizer.kinematics_sequence))
    p.dyn_optimizer = Recorder(p.dyn_optimizer, 'dyn', log, plan)
    p.kin_optimizer = Recorder(p.kin_optimizer, 'kin', log, plan)
    start = snap(p.ini_state)
    try:
        kin, eff, dyn, fb, setting, T = kdp.optimize_motion(p, plot_com_motion=r.chance(.15))
    except Exception as e:
        if not log or log[-1]['name'] != 'kin' or 'result' in log[-1]:
            raise
        c.count('kinematics_failed')                       # the inverse kinematics is judged on its own
        return
    c.count('plans')
    # who is called, in which order
    c.require('calls', [e['name'] for e in log] == ['dyn'] + ['kin', 'dyn'] * iters, '%s: %s' % (what, [e['name'] for e in log]))
    for i, e in enumerate(log):
        a = e['before']
        c.require('starts_at_the_initial_state', same(a[0], start), '%s call %d' % (what, i))
        if e['name'] == 'dyn':
            c.require('dynamics_gets_the_contact_plan', e['a'][1] is p.contact_plan, what)
            c.require('dynamics_told_to_track', bool(a[3]) == (i > 0), '%s call %d' % (what, i))
            if i:
                c.require('dynamics_gets_the_latest_kinematics', same(a[2], log[i - 1]['outputs'][1]), '%s call %d' % (what, i))
                c.count('alternations')
        else:
            c.require('kinematics_gets_the_latest_dynamics', same(a[2], log[i - 1]['outputs'][0]), '%s call %d' % (what, i))
            c.require('kinematics_gets_the_contacts', type(e['a'][1]).__name__ == 'ContactSequence', what)
    # what comes out is the last of each
    c.require('returns_the_last_dynamics', same(dyn_values(dyn), log[-1]['outputs'][0]) and same(dyn_values(p.dyn_optimizer.dynamicsSequence()), dyn_values(dyn)), what)
    c.require('returns_the_last_kinematics', same(kin_values(kin), log[-1]['outputs'][1]), what)
    c.require('sequence_lengths', len(dyn.dynamics_states) == n and len(kin.kinematics_states) == n and len(T) == n and all(len(eff[k]) == n for k in eff), '%s: %d %d %d %s' % (what, len(dyn.dynamics_states), len(kin.kinematics_states), len(T), {k: len(eff[k]) for k in eff}))
    c.require('returns_the_setting', setting is p.planner_setting, what)
    own = np.concatenate([[0.], np.cumsum([d.dt for d in dyn.dynamics_states][:-1])])
    c.check('time_stamps', max(np.abs(T - own).max(), np.abs(p.time_vector() - own).max()), 1e-12 * (1 + own[-1]), what)
    c.require('feedback_only_when_asked', (fb is not None) == lqr and fb is p.dynamics_feedback, what)
    # the same stages called by hand, in order, on new objects
    if c.id % 3 == 0 and not c.nviol:
        h = kdp.build_optimization(f, robot, lqr)
        h.dyn_optimizer.optimize(h.ini_state, h.contact_plan, h.kin_optimizer.kinematics_sequence, False)
        for _ in range(iters):
            h.kin_optimizer.optimize(h.ini_state, h.contact_plan.contactSequence(), h.dyn_optimizer.dynamicsSequence())
            h.dyn_optimizer.optimize(h.ini_state, h.contact_plan, h.kin_optimizer.kinematics_sequence, True)
        for k, a, b in (('dynamics', dyn_values(dyn), dyn_values(h.dyn_optimizer.dynamicsSequence())), ('kinematics', kin_values(kin), kin_values(h.kin_optimizer.kinematics_sequence))):
            c.check('same_by_hand', np.abs(fin(a) - fin(b)).max() if same(np.isfinite(a), np.isfinite(b)) else np.inf, 1e-9 * (1 + np.abs(fin(a)).max()), '%s %s' % (what, k))
        if lqr:
            g = DynamicsFeedback()
            g.initialize(h.dynlqr_setting, h.planner_setting)
            g.optimize(h.ini_state, h.dyn_optimizer.dynamicsSequence())
            A = np.array([g.forceGain(t) for t in range(n)])
            B = np.array([fb.forceGain(t) for t in range(n)])
            c.check('feedback_of_the_last_plan', np.abs(fin(A) - fin(B)).max(), 1e-9 * (1 + np.abs(fin(A)).max()), what)
            c.count('feedbacks')
    # and what is exported is what was returned
    if c.id % 3 == 0 and ne == 4 and not c.nviol and T[-1] > .0021 and iters and np.isfinite(kin_values(kin)).all() and np.isfinite(dyn_values(dyn)).all():
        W = setting.get(PlannerDoubleParam_RobotWeight)
        s = export.series(kin, dyn, eff, W)
        for kind in ['file'] + (['qp'] if r.chance(.5) else []):
            d = os.path.join(box, kind)
            os.mkdir(d)
            os.chdir(d)
            (p.save_files if kind == 'file' else p.save_qp_files)()
            if kind == 'file' and lqr:
                x = os.path.join(box, 'lqr')
                os.mkdir(x)
                shutil.move('quadruped_positions_abs_with_horizon_part.dat', x)
                export.compare(c, x, 'lqr', T, s, W, what)
            export.compare(c, d, kind, T, s, W, what)
            c.count('exports')
    c.sig = '%s:%d:%d:%d:%s:%s' % (name, n, iters, second, style, heur)
    c.nontrivial = True
    c.sample = what


vk.run('k06_loop', one)
