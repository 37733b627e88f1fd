"""Data crossing the Python/C++ boundary: random programs over the bound classes, each with a plain Python shadow."""
import gc, os, re, shutil, tempfile
import numpy as np
import vk
try:
    import pymomentum as pm
    import pysolver
    import pysolverlqr as pl
    from pymomentum import *
    LOAD = None
except ImportError as e:
    LOAD = str(e)
    KinematicsInterface = object

REPO = os.environ.get('VK_REPO', '/repo')
TAB = open(os.path.join(os.environ['VK_VERIF'], 'harness/common/s08_tables.hpp')).read()


def rows(name):
    body = TAB[TAB.index('Row %s[]' % name):]
    body = body[:body.index('};\n')]
    return [(k, kind, p.split('::')[-1], g) for k, kind, p, g in re.findall(r'\{"(\w+)", \'(\w)\', ([\w:]+), \'(.)\'\}', body)]


PLANNER, LQR = rows('PLANNER'), rows('LQR')
DIR = None


def rd(r):
    k = r.irange(0, 4)
    return [float(r.irange(-9, 9)), r.normal() * 10, r.logu(1e-12, 1e9) * r.sgn(), r.irange(0, 100) * .01, r.uni(0, 1)][k]


def rval(r, kind):
    if kind == 'b':
        return r.chance(.5)
    if kind == 'i':
        return r.irange(-5, 2000)
    if kind == 'd':
        return rd(r)
    if kind == 'I':
        return [r.irange(0, 30) for _ in range(r.irange(0, 9))]
    return np.array([rd(r) for _ in range(r.irange(1, 9) if kind == 'X' else int(kind))])


def yv(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, float):
        return '%.17g' % v
    if isinstance(v, (list, np.ndarray)):
        return '[' + ', '.join('%d' % x if isinstance(x, int) else '%.17g' % x for x in v) + ']'
    return str(v)


def same(a, b):
    if isinstance(b, (np.ndarray, list)):
        a = np.asarray(a)
        b = np.asarray(b)
        return a.shape == b.shape and bool((a == b).all())
    return type(a) is type(b) and a == b


def snapshot(v):
    return v.copy() if isinstance(v, np.ndarray) else [np.array(x) for x in v] if isinstance(v, (list, tuple)) else v


# ---------------------------------------------------------------------------------------------------------------- settings
def planner_file(r, f, kin, second, heur):
    vals, txt = {}, ['planner_variables:', '  heuristic: ' + heur, '  friction_cone: ' + ('LinearCone' if r.chance(.5) else 'SocCone')]
    lin = txt[-1].endswith('LinearCone')
    dt, n = r.choice([.1, .05, .01, .02, .2, .125]), r.irange(1, 60)
    ndof, nv, nj, nb = r.irange(1, 5), r.irange(0, 4), r.irange(0, 3), r.irange(0, 3)
    for k, kind, p, g in PLANNER:
        on = g == '-' or (g == 'k' and kin) or (g == 't' and heur == 'TimeOptimization') or (g == '2' and kin and second) or (g == '1' and kin and not second)
        if not on:
            continue
        v = rval(r, kind)
        v = dict(load_kinematics=kin, use_second_order_inv_kin=second, time_step=dt, time_horizon=round(n * dt, 9), num_dofs=ndof, num_com_viapoints=nv, num_joint_viapoints=nj, num_joint_viapoints_second=nj, num_base_viapoints=nb, num_base_viapoints_second=nb).get(k, v)
        txt.append('  %s: %s' % (k, yv(v)))
        vals[p] = v
    for e in ('rf', 'lf', 'rh', 'lh'):
        txt += ['  cop_range_%s: %s' % (e, yv(r.vec(4))), '  eff_offset_%s: %s' % (e, yv(r.vec(3)))]

    def via(name, k, ln, p):
        v = [np.array([rd(r) for _ in range(ln)]) for _ in range(k)]
        txt.append('  %s:%s' % (name, ''.join('\n    via%d: %s' % (i, yv(x)) for i, x in enumerate(v)) if k else ' []'))
        vals[p] = v
    via('com_viapoints', nv, 4, 'PlannerCVectorParam_Viapoints')
    if kin:
        s = '_second' if second else ''
        S = '_Second' if second else ''
        via('joint_viapoints' + s, nj, ndof + 1, 'PlannerCVectorParam_JointViapoints' + S)
        via('base_viapoints' + s, nb, 4, 'PlannerCVectorParam_BaseViapoints' + S)
        vals['PlannerIntParam_NumActiveDofs'] = len(vals['PlannerIntVectorParam_ActiveDofs'])
        vals['PlannerIntParam_NumExtendedActiveDofs'] = 6 + len(vals['PlannerIntVectorParam_ActiveDofs'])
    mg = vals['PlannerDoubleParam_RobotMass'] * vals['PlannerDoubleParam_Gravity']
    vals.update(PlannerIntParam_NumTimesteps=n, PlannerDoubleParam_MassTimesGravity=mg, PlannerDoubleParam_RobotWeight=mg, PlannerVectorParam_GravityVector=np.array([0, 0, -vals['PlannerDoubleParam_Gravity']]),
                PlannerBoolParam_IsFrictionConeLinear=lin, PlannerStringParam_ConfigFile=f, PlannerStringParam_SaveKinematicsFile=f[:-5] + '_kin_results.yaml')
    open(f, 'w').write('\n'.join(txt) + '\n')
    return vals


def settings(c):
    r = c.rng
    s, model, held = PlannerSetting(), {}, []
    ops = ''

    def compare(when):
        for p, v in model.items():
            if not hasattr(pm, p) or p.startswith('PlannerIntVector'):
                continue  # not every parameter of the library is exposed, and integer vectors have no accessor
            g = s.get(getattr(pm, p))
            if p.startswith('PlannerCVector'):
                ok = len(g) == len(v) and all(same(a, b) for a, b in zip(g, v))
            else:
                ok = same(g, v)
            c.require('parameter_value', ok, '%s %s reads %s expected %s' % (when, p, g, v))
        for k, (p, a, b) in enumerate(held):
            c.require('read_value_stays', same(a, b), '%s: value of %s read earlier became %s' % (when, p, a))
    for step in range(r.irange(2, 7)):
        op = 0 if step == 0 else r.irange(0, 4)
        names = [p for p in model if hasattr(pm, p) and not p.startswith('PlannerIntVector')]
        if op == 0:
            f = os.path.join(DIR, 'cfg%d_%d.yaml' % (c.id, step))
            model.update(planner_file(r, f, r.chance(.7), r.chance(.5), r.choice(['TrustRegion', 'SoftConstraint', 'TimeOptimization'])))
            if 'PlannerIntVectorParam_ActiveDofs' in model:         # derived whenever a file is loaded
                model['PlannerIntParam_NumActiveDofs'] = len(model['PlannerIntVectorParam_ActiveDofs'])
                model['PlannerIntParam_NumExtendedActiveDofs'] = 6 + len(model['PlannerIntVectorParam_ActiveDofs'])
            s.initialize(f) if r.chance(.5) else s.initialize(cfg_file=f, planner_vars_yaml='planner_variables')
            os.unlink(f)
            ops += 'L'
        elif op in (1, 2):
            p = r.choice(names)
            old = model[p]
            e = getattr(pm, p)
            if p.startswith('PlannerCVector'):
                v = [r.vec(r.irange(1, 5)) for _ in range(r.irange(0, 3))]
            elif isinstance(old, np.ndarray):
                if r.chance(.25):
                    bad = r.vec(r.choice([n for n in range(0, 12) if n != len(old)]))
                    try:
                        s.set(e, bad)
                        c.violate('wrong_size_accepted', '%s has %d values, set with %d' % (p, len(old), len(bad)))
                    except (ValueError, TypeError):
                        c.count('obs:wrong_size_refused')
                v = r.vec(2 * len(old))[::2] if r.chance(.3) else r.vec(len(old))
            else:
                v = 'name %d' % r.irange(0, 99) if isinstance(old, str) else rval(r, 'b' if isinstance(old, bool) else 'i' if isinstance(old, int) else 'd')
            s.set(e, v)
            model[p] = snapshot(v)
            for a, b in (('RobotWeight', 'MassTimesGravity'), ('MassTimesGravity', 'RobotWeight')):    # two names of one quantity
                if p == 'PlannerDoubleParam_' + a:
                    model['PlannerDoubleParam_' + b] = v
            ops += 'S'
            c.count('parameters_set')
        elif op == 3:
            p = r.choice(names)
            v = s.get(getattr(pm, p))
            held.append((p, v, snapshot(v)))
            if isinstance(v, np.ndarray) and r.chance(.5):
                try:
                    v[...] = 7.25                      # a value which was read is the reader's
                    held[-1] = (p, v, v.copy())
                except ValueError:
                    pass
            ops += 'H'
        else:
            p = r.choice(names)
            other = r.choice([PlannerDoubleParam_TimeStep, PlannerIntParam_NumTimesteps, PlannerBoolParam_StoreData, PlannerVectorParam_TimeRange])
            try:
                s.set(other, 'text')
                c.violate('wrong_type_accepted', str(other))
            except TypeError:
                c.count('obs:wrong_type_refused')
            ops += 'T'
        compare(ops)
    del s
    gc.collect()
    for p, a, b in held:
        c.require('read_value_stays', same(a, b), 'after the setting was deleted: %s became %s' % (p, a))
    c.sig, c.sample = 'settings:' + ops, ops


def lqr_settings(c):
    r = c.rng
    lim = r.chance(.5)
    dt, n = r.choice([.1, .05, .01, .125]), r.irange(1, 60)
    vals, txt = {}, ['solverlqr_variables:']
    for k, kind, p, g in LQR:
        if g == 'l' and not lim:
            continue
        v = dict(time_step=dt, time_horizon=round(n * dt, 9), has_control_limits=lim, state_dimension=r.irange(0, 40), control_dimension=r.irange(0, 40)).get(k, rval(r, kind))
        txt.append('  %s: %s' % (k, yv(v)))
        vals[p] = v
    b, m = r.uni(1.05, 3), r.irange(1, 9)
    txt += ['  linesearch_coeff: %.17g' % b, '  linesearch_num_coeffs: %d' % m, '  user_parameters: {a: 1}', '  integration_method: Euler']
    if not lim:
        pass
    f = os.path.join(DIR, 'lqr%d.yaml' % c.id)
    open(f, 'w').write('\n'.join(txt) + '\n')
    s = pl.SolverLqrSetting()
    s.initialize(f)
    vals['SolverLqrIntParam_TimeDimension'] = n
    vals['SolverLqrStringParam_ConfigFile'] = f
    vals['SolverLqrStringParam_SaveLqrFile'] = f[:-5] + '_lqr_results.yaml'
    held = []
    for p, v in vals.items():
        if hasattr(pl, p):
            g = s.get(getattr(pl, p))
            c.require('lqr_parameter_value', same(g, v), '%s reads %s expected %s' % (p, g, v))
            held.append((p, g, v))
    a = s.get(pl.SolverLqrVectorParam_LineSearchCoeffs)
    c.require('line_search_coefficients', len(a) == m and np.allclose(a, [b**(-float(i) * i) for i in range(m)], rtol=1e-12), str(a))
    os.unlink(f)
    del s
    gc.collect()
    for p, g, v in held:
        c.require('read_value_stays', same(g, v), 'after the LQR setting was deleted: %s' % p)
    c.sig = 'lqr:%d%d' % (lim, m)


def names(c):
    """Enumerations: every name has its own value within its enumeration, and numbers are those of the library."""
    n = 0
    for mod in (pm, pl):
        for t in vars(mod).values():
            if isinstance(t, type) and hasattr(t, '__members__'):
                vals = [int(x) for x in t.__members__.values()]
                c.require('names_are_distinct', len(set(vals)) == len(vals), '%s: %s' % (t.__name__, vals))
                for k, x in t.__members__.items():
                    c.require('name_of_value', x.name == k and getattr(mod, k, x) == x, '%s.%s' % (t.__name__, k))
                    n += 1
    order = ['right_foot', 'left_foot', 'right_hand', 'left_hand']
    for i, k in enumerate(order):
        e = getattr(EffId, k)
        c.require('effector_number', e.value() == i and int(e) == i, k)
        d = DynamicsState()
        d.setEffForce(e, np.array([1., 2, 3]))
        c.require('effector_number', same(d.effForce(i), [1., 2, 3]), k)
    c.require('contact_type_number', [int(ContactType.FreeContact), int(ContactType.FlatContact), int(ContactType.FullContact)] == [0, 1, 2])
    X = ['Optimal', 'OptimalInacc', 'PrimalInf', 'PrimalInfInacc', 'DualInf', 'DualInfInacc', 'ReachMaxIters', 'NotConverged', 'Indeterminate', 'PrSearchDirection', 'PrSlacksLeaveCone', 'PrProjection']
    E = pysolver.ExitCode
    src = open(os.path.join(REPO, 'solver/include/solver/interface/SolverSetting.hpp')).read() if os.path.exists(os.path.join(REPO, 'solver/include/solver/interface/SolverSetting.hpp')) else ''
    c.require('names_are_distinct', len({int(getattr(E, k)) for k in X}) == len(X))
    c.count('names', n)
    c.sig = 'names'


# ---------------------------------------------------------------------------------------------------------------- states
VEC = ['com', 'lmom', 'amom', 'lmomd', 'amomd']
EFF = {'Position': 'effPosition', 'Force': 'effForce', 'Torque': 'effTorque'}


class Dyn:
    """shadow of a DynamicsState"""

    def __init__(self, s):
        self.v = {k: np.array(getattr(s, k)) for k in VEC}
        self.dt = s.dt
        self.e = {}
        for i in range(4):
            for k in ('effPosition', 'effForce', 'effTorque', 'effCoP', 'effVelocity', 'effAcceleration', 'effOrientation'):
                self.e[k, i] = np.array(getattr(s, k)(i))
            self.e['effActivation', i] = s.effActivation(i)

    def clone(self):
        o = Dyn.__new__(Dyn)
        o.v = {k: x.copy() for k, x in self.v.items()}
        o.dt = self.dt
        o.e = {k: snapshot(x) for k, x in self.e.items()}
        return o

    def diff(self, s):
        for k in VEC:
            if not same(getattr(s, k), self.v[k]):
                return '%s reads %s expected %s' % (k, getattr(s, k), self.v[k])
        if s.dt != self.dt:
            return 'dt reads %s expected %s' % (s.dt, self.dt)
        for (k, i), x in self.e.items():
            g = getattr(s, k)(i)
            if not same(g, x):
                return '%s(%d) reads %s expected %s' % (k, i, g, x)
            if k == 'effPosition' and not same(s.eff(i), x):
                return 'eff(%d) reads %s expected %s' % (i, s.eff(i), x)
        return None

    def write(self, r, s):
        op = r.irange(0, 3)
        i = r.irange(0, 3)
        if op == 0:
            k, x = r.choice(VEC), r.vec(3)
            setattr(s, k, x)
            self.v[k] = x
            return k
        if op == 1:
            self.dt = s.dt = r.uni(.01, .3)
            return 'dt'
        if op == 2:
            k, x = r.choice(list(EFF)), r.vec(3)
            getattr(s, 'setEff' + k)(i, x) if r.chance(.5) else getattr(s, 'setEff' + k)(EffId(i), x)
            self.e[EFF[k], i] = x
            return k + str(i)
        x = r.chance(.5)
        s.setEffActivation(i, x)
        self.e['effActivation', i] = x
        return 'act%d' % i


def dyn_states(c):
    r = c.rng
    q = DynamicsSequence()
    n = r.irange(1, 6)
    q.resize(n)
    for s in q.dynamics_states:
        s.dt = 0.
    sh = [Dyn(s) for s in q.dynamics_states]
    refs, ops = [], ''
    for step in range(r.irange(5, 40)):
        v = q.dynamics_states
        op = r.irange(0, 9)
        i = r.irange(0, n - 1) if n else 0
        if n == 0:
            op = 8
        if op <= 4:
            s = v[i] if op < 3 else v[i - n]
            ops = 'w%d.%s' % (i, sh[i].write(r, s))
        elif op == 5:                                     # copy by assignment into a slot
            j = r.irange(0, n - 1)
            v[i] = v[j]
            sh[i] = sh[j].clone()
            ops = 'copy %d to %d' % (j, i)
        elif op == 6:                                     # keep a reference and write through it
            refs = [(i, v[i])]
            del v
            gc.collect()
            ops = 'ref%d.%s' % (i, sh[i].write(r, refs[0][1]))
        elif op == 7:                                     # a state of one's own
            s = DynamicsState()
            s.dt = 0.
            m = Dyn(s)
            for _ in range(r.irange(1, 9)):
                m.write(r, s)
            c.require('state_field', m.diff(s) is None, m.diff(s))
            v[i] = s
            sh[i] = m.clone()
            m.write(r, s)
            ops = 'own to %d' % i
        elif op == 8 and step % 3 == 0:                   # replace the whole vector by another sequence's
            p = DynamicsSequence()
            n = r.irange(0, 6)
            refs = []
            p.resize(n)
            for s in p.dynamics_states:
                s.dt = 0.
            sh = [Dyn(s) for s in p.dynamics_states]
            for k in range(n):
                sh[k].write(r, p.dynamics_states[k])
            q.dynamics_states = p.dynamics_states
            if n:
                sh[0].clone().write(r, p.dynamics_states[0])   # must not show in q
            ops = 'replace'
        elif op == 9 and r.chance(.2):
            refs = []
            q.clean()
            n, sh = 0, []
            ops = 'clean'
        c.require('sequence_size', q.size() == n and len(q.dynamics_states) == n, '%d %d' % (q.size(), n))
        for k, s in enumerate(q.dynamics_states):
            d = sh[k].diff(s)
            c.require('dynamic_state_field', d is None, 'step %d of %d after %s: %s' % (k, n, ops, d))
        for k, s in refs:
            d = sh[k].diff(s)
            c.require('reference_follows_its_object', d is None, 'reference to step %d after %s: %s' % (k, ops, d))
    if n:
        s = q.dynamics_states[n - 1]
        m = sh[n - 1]
        del q
        gc.collect()
        c.require('reference_outlives_its_name', m.diff(s) is None, m.diff(s))
        repr(s)
    c.require('effector_count', DynamicsState().effNum() == 4)
    c.sig = 'dyn:%d:%d' % (n, step)


class Kin:
    def __init__(self, s, nj):
        self.nj = nj
        self.v = {k: np.array(getattr(s, k)) for k in ('com', 'lmom', 'amom')}
        self.p = {k: np.array(getattr(s.robot_posture, k)) for k in ('base_position', 'base_orientation', 'joint_positions')}
        self.vel = np.array(s.robot_velocity.generalized_joint_velocities)
        self.acc = np.array(s.robot_acceleration.generalized_joint_accelerations)
        self.e = [np.array(x) for x in s.endeffector_positions]

    def clone(self):
        o = Kin.__new__(Kin)
        o.nj, o.v, o.p, o.vel, o.acc, o.e = self.nj, {k: x.copy() for k, x in self.v.items()}, {k: x.copy() for k, x in self.p.items()}, self.vel.copy(), self.acc.copy(), [x.copy() for x in self.e]
        return o

    def diff(self, s):
        P, V, A = s.robot_posture, s.robot_velocity, s.robot_acceleration
        for n, g, x in [(k, getattr(s, k), self.v[k]) for k in self.v] + [(k, getattr(P, k), self.p[k]) for k in self.p] + [
                ('generalized positions', P.generalized_joint_positions, np.concatenate([self.p['base_position'], self.p['base_orientation'], self.p['joint_positions']])),
                ('generalized velocities', V.generalized_joint_velocities, self.vel), ('joint velocities', V.joint_velocities, self.vel[6:]), ('base linear velocity', V.base_linear_velocity, self.vel[:3]), ('base angular velocity', V.base_angular_velocity, self.vel[3:6]),
                ('generalized accelerations', A.generalized_joint_accelerations, self.acc), ('joint accelerations', A.joint_accelerations, self.acc[6:]), ('base linear acceleration', A.base_linear_acceleration, self.acc[:3]), ('base angular acceleration', A.base_angular_acceleration, self.acc[3:6])] + [
                ('effector %d' % i, s.endeffector_positions[i], self.e[i]) for i in range(4)]:
            if not same(g, x):
                return '%s reads %s expected %s' % (n, g, x)
        if s.numJoints != self.nj:
            return 'numJoints %d' % s.numJoints
        return None

    def write(self, r, s):
        op = r.irange(0, 6)
        if op == 0:
            k, x = r.choice(['com', 'lmom', 'amom']), r.vec(3)
            setattr(s, k, x)
            self.v[k] = x
        elif op == 1:
            k = r.choice(list(self.p))
            x = r.vec(len(self.p[k]))
            if k == 'base_orientation':
                x /= np.linalg.norm(x)
            setattr(s.robot_posture, k, x)
            self.p[k] = x
        elif op in (2, 3):
            m, o, pre = (self.vel, s.robot_velocity, 'velocit') if op == 2 else (self.acc, s.robot_acceleration, 'acceleration')
            ys, y = ('ies', 'y') if op == 2 else ('s', '')
            k = r.irange(0, 3)
            a, b, n = [(0, 6 + self.nj, 'generalized_joint_' + pre + ys), (6, 6 + self.nj, 'joint_' + pre + ys), (0, 3, 'base_linear_' + pre + y), (3, 6, 'base_angular_' + pre + y)][k]
            x = r.vec(b - a)
            setattr(o, n, x)
            m[a:b] = x
            return n
        elif op == 4:
            i, x = r.irange(0, 3), r.vec(3)
            s.endeffector_positions[i] = x
            self.e[i] = x
        elif op == 5:
            x = [r.vec(3) for _ in range(4)]
            s.endeffector_positions = ArrayVector3d(x)
            self.e = x
        else:                                                # a whole posture, taken over by value
            p = RobotPosture(self.nj)
            p.base_position, p.joint_positions = r.vec(3), r.vec(self.nj)
            q = r.vec(4)
            p.base_orientation = q / np.linalg.norm(q)
            self.p = {k: np.array(getattr(p, k)) for k in self.p}
            s.robot_posture = p
            p.base_position = r.vec(3)
            v = RobotVelocity(self.nj)
            v.generalized_joint_velocities = r.vec(6 + self.nj)
            self.vel = np.array(v.generalized_joint_velocities)
            s.robot_velocity = v
            v.base_linear_velocity = r.vec(3)
            return 'posture'
        return str(op)


def kin_states(c):
    r = c.rng
    q, nj, n = KinematicsSequence(), r.irange(0, 9), r.irange(1, 6)
    q.resize(n, nj)
    sh = [Kin(s, nj) for s in q.kinematics_states]
    for k in range(n):                                       # define every field
        s = q.kinematics_states[k]
        for f in ('com', 'lmom', 'amom'):
            setattr(s, f, np.zeros(3))
        s.endeffector_positions = ArrayVector3d([np.zeros(3)] * 4)
        sh[k] = Kin(s, nj)
    refs, ops = [], ''
    for step in range(r.irange(5, 40)):
        v, i = q.kinematics_states, r.irange(0, n - 1)
        op = r.irange(0, 8)
        if op <= 4:
            ops = 'w%d.%s' % (i, sh[i].write(r, v[i]))
        elif op == 5:
            j = r.irange(0, n - 1)
            v[i] = v[j]
            sh[i] = sh[j].clone()
            ops = 'copy %d to %d' % (j, i)
        elif op == 6:
            refs = [(i, v[i])]
            del v
            gc.collect()
            ops = 'ref%d.%s' % (i, sh[i].write(r, refs[0][1]))
        elif op == 7:
            P, V = v[i].robot_posture, v[i].robot_velocity      # parts refer to the state they are taken from
            del v
            gc.collect()
            x, y = r.vec(3), r.vec(3)
            P.base_position = x
            sh[i].p['base_position'] = x
            V.base_angular_velocity = y
            sh[i].vel[3:6] = y
            ops = 'part of %d' % i
        else:
            s = KinematicsState(nj)
            for f in ('com', 'lmom', 'amom'):
                setattr(s, f, np.zeros(3))
            s.endeffector_positions = ArrayVector3d([np.zeros(3)] * 4)
            m = Kin(s, nj)
            for _ in range(r.irange(1, 9)):
                m.write(r, s)
            v[i] = s
            sh[i] = m.clone()
            m.write(r, s)
            c.require('kinematic_state_field', m.diff(s) is None, 'own state: %s' % m.diff(s))
            ops = 'own to %d' % i
        c.require('sequence_size', q.size() == n and len(q.kinematics_states) == n)
        for k, s in enumerate(q.kinematics_states):
            d = sh[k].diff(s)
            c.require('kinematic_state_field', d is None, 'step %d of %d after %s: %s' % (k, n, ops, d))
        for k, s in refs:
            d = sh[k].diff(s)
            c.require('reference_follows_its_object', d is None, 'reference to step %d after %s: %s' % (k, ops, d))
    p = KinematicsSequence()
    p.kinematics_states = q.kinematics_states
    s = q.kinematics_states[n - 1]
    m = sh[n - 1]
    arr = s.endeffector_positions
    vel = s.robot_velocity.joint_velocities
    del q
    gc.collect()
    c.require('reference_outlives_its_name', m.diff(s) is None, m.diff(s))
    del s
    gc.collect()
    c.require('reference_outlives_its_name', all(same(arr[i], m.e[i]) for i in range(4)) and same(vel, m.vel[6:]), 'parts of a state: %s' % vel)
    for k in range(n):
        c.require('kinematic_state_field', sh[k].diff(p.kinematics_states[k]) is None, 'of a copied sequence')
    repr(p)
    c.sig = 'kin:%d:%d' % (n, nj)


# ---------------------------------------------------------------------------------------------------------------- contacts
def rot(r):
    q = r.vec(4)
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


class Cnt:
    def __init__(self, s, r):
        s.start_time, s.end_time, s.position, s.contactType, s.active = 0., 0., np.zeros(3), ContactType.FlatContact, True
        M = np.eye(4)
        s.placement = M
        self.t0 = self.t1 = 0.
        self.p, self.R, self.k, self.a = np.zeros(3), np.eye(3), ContactType.FlatContact, True

    def clone(self):
        o = Cnt.__new__(Cnt)
        o.t0, o.t1, o.p, o.R, o.k, o.a = self.t0, self.t1, self.p.copy(), self.R.copy(), self.k, self.a
        return o

    def write(self, r, s):
        op = r.irange(0, 5)
        if op == 0:
            self.t0 = s.start_time = r.uni(-1, 9)
        elif op == 1:
            self.t1 = s.end_time = r.uni(-1, 9)
        elif op == 2:
            self.p = r.vec(3)
            s.position = self.p
        elif op == 3:
            M = np.eye(4)
            M[:3, :3], M[:3, 3] = rot(r), r.vec(3)
            s.placement = np.asfortranarray(M) if r.chance(.5) else M
            self.p, self.R = M[:3, 3].copy(), M[:3, :3].copy()
        elif op == 4:
            self.k = s.contactType = ContactType(r.irange(0, 2))
        else:
            self.a = s.active = r.chance(.5)
        return str(op)

    def diff(self, s):
        if (s.start_time, s.end_time, s.contactType, s.active) != (self.t0, self.t1, self.k, self.a):
            return '%s expected %s' % ((s.start_time, s.end_time, s.contactType, s.active), (self.t0, self.t1, self.k, self.a))
        if not same(s.position, self.p):
            return 'position %s expected %s' % (s.position, self.p)
        M = s.placement
        if not (np.abs(M[:3, :3] - self.R).max() < 1e-9 and same(M[:3, 3], self.p) and same(M[3], np.array([0., 0, 0, 1]))):
            return 'placement %s expected %s %s' % (M.tolist(), self.R.tolist(), self.p)
        return None


def contacts(c):
    r = c.rng
    fromfile = r.chance(.5)
    if fromfile:
        f = os.path.join(DIR, 'cnt%d.yaml' % c.id)
        planner_file(r, f, False, False, 'TrustRegion')
        num = [r.irange(0, 3) for _ in range(4)]
        want = [[] for _ in range(4)]
        txt = 'contact_plan:\n'
        for e, nm in enumerate(('rf', 'lf', 'rh', 'lh')):
            txt += '  effvia_%s: []\n  effcnt_%s:%s\n' % (nm, nm, '' if num[e] else ' []')
            for k in range(num[e]):
                q = r.vec(4)
                q /= np.linalg.norm(q)
                p, t0, kind = r.vec(3), r.uni(0, 2), r.irange(0, 2)
                txt += '    - %s\n' % (yv(np.concatenate([[t0, t0 + 1], p, q, [float(kind), -1.]])))
                w, x, y, z = q
                m = Cnt.__new__(Cnt)
                m.t0, m.t1, m.p, m.k, m.a = t0, t0 + 1, p, ContactType(kind), True
                m.R = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])
                want[e].append(m)
        open(f, 'a').write(txt)
        plan = ContactPlanFromFile()

        def start():
            s = PlannerSetting()
            s.initialize(f)
            plan.initialize(s)
        start()
        gc.collect()                                         # the plan needs its setting although nobody else does
        ini, ter = DynamicsState(), TerrainDescription()
        plan.optimize(ini, ter)
        os.unlink(f)
        seq = plan.contactSequence()
        lst = [seq.contact_states(e) for e in range(4)]
        sh = want
        for e in range(4):
            c.require('contacts_of_file', len(lst[e]) == num[e], '%d of %d' % (len(lst[e]), num[e]))
            for k in range(num[e]):
                # a unit quaternion from a file: positions exact, rotation to rounding
                c.require('contacts_of_file', sh[e][k].diff(lst[e][k]) is None, sh[e][k].diff(lst[e][k]))
    else:
        seq = ContactSequence()
        sh = [[], [], [], []]
        plan = None
    c.require('effector_count', seq.eff_num() == 4)
    ops = ''
    for step in range(r.irange(5, 40)):
        e = r.irange(0, 3)
        L = seq.contact_states(e if r.chance(.5) else EffId(e).value())
        n = len(sh[e])
        op = r.irange(0, 5)
        if op <= 1 or n == 0:
            s = ContactState()
            m = Cnt(s, r)
            for _ in range(r.irange(0, 6)):
                m.write(r, s)
            L.append(s)
            sh[e].append(m.clone())
            m.write(r, s)
            ops = 'append %d' % e
        elif op <= 3:
            i = r.irange(0, n - 1)
            ops = 'w%d.%d.%s' % (e, i, sh[e][i].write(r, L[i]))
        elif op == 4:
            i = r.irange(0, n - 1)
            del L[i]
            del sh[e][i]
            ops = 'del %d.%d' % (e, i)
        else:
            i, j = r.irange(0, n - 1), r.irange(0, n - 1)
            L[i] = L[j]
            sh[e][i] = sh[e][j].clone()
            ops = 'copy'
        if r.chance(.2):
            if plan is not None:
                seq = plan.contactSequence()
            gc.collect()
        for e in range(4):
            L = seq.contact_states(e)
            c.require('contact_count', len(L) == len(sh[e]), '%d %d after %s' % (len(L), len(sh[e]), ops))
            for k in range(min(len(L), len(sh[e]))):
                d = sh[e][k].diff(L[k])
                c.require('contact_field', d is None, 'effector %d contact %d after %s: %s' % (e, k, ops, d))
    L = [seq.contact_states(e) for e in range(4)]
    del seq, plan
    gc.collect()
    for e in range(4):
        for k in range(len(L[e])):
            c.require('reference_outlives_its_name', sh[e][k].diff(L[e][k]) is None, sh[e][k].diff(L[e][k]))
    c.sig = 'contacts:%d:%s' % (fromfile, [len(x) for x in sh])


# ---------------------------------------------------------------------------------------------------------------- planners
LQRTXT = '''solverlqr_dynamics:
  {verbosity: 0, decimal_digits: 4, lqr_max_iters: %d, linesearch_coeff: 1.1, linesearch_num_coeffs: 10, cost_change_tolerance: 1e-9, divergence_limit_check: 1e6, bpass_regularization_type: 2,
   bpass_min_regularization: 1e-6, bpass_max_regularization: 1e10, control_gradient_tolerance: 1e-9, bpass_initial_regularization: 1.0, min_expected_cost_improvement: 0.2, bpass_mult_regularization_incr: 1.6,
   bpass_initial_mult_regularization_incr: 1.0, time_step: 0.1, time_horizon: %.6g, state_dimension: 9, control_dimension: 6, initial_state: [0, 0, 0, 0, 0, 0, 0, 0, 0], has_control_limits: false,
   store_data: false, use_runge_kutta: false, user_parameters: {control_cost: [0.01, 0.01, 0.01], com_tracking: [10, 10, 10], lmom_tracking: [1, 1, 1], amom_tracking: [1, 1, 1],
   com_final_tracking: [10, 10, 10], lmom_final_tracking: [1, 1, 1], amom_final_tracking: [1, 1, 1]}}
'''


class Toy(KinematicsInterface):
    """A 'robot' whose centre of mass, momentum and effectors are affine in its joints; records what crosses the boundary."""

    def __init__(self, rng, nj, rec):
        KinematicsInterface.__init__(self)
        self.r, self.nj, self.rec = rng, nj, rec
        self.A = {k: np.array([[rng.normal() * .2 for _ in range(6 + nj)] for _ in range(3)]) for k in ('com', 'l', 'a', 0, 1, 2, 3)}
        for k in ('com', 0, 1, 2, 3):
            self.A[k][:, :3] = np.eye(3)

    def initialize(self, stg):
        self.rec['setting'] = (stg.get(PlannerIntParam_NumDofs), stg.get(PlannerDoubleParam_TimeStep))
        self.endeffector_jacobians = JacobianVector([np.zeros((3, 6 + self.nj))] * 4)

    def logarithmicMap(self, q):
        self.rec.setdefault('log', []).append(np.array(q))
        w = min(1., abs(q[0]))
        v = np.array(q[1:]) * (1 if q[0] >= 0 else -1)
        nv = np.linalg.norm(v)
        return np.zeros(3) if nv < 1e-12 else v / nv * 2 * np.arctan2(nv, w)

    def displayPosture(self, s, t):
        self.rec['shown'] = self.rec.get('shown', 0) + 1

    def q(self, s):
        p = s.robot_posture
        return np.concatenate([p.base_position, np.zeros(3), p.joint_positions])

    def updateJacobiansAndState(self, s, dt):
        q = self.q(s)
        v = np.array(s.robot_velocity.generalized_joint_velocities)
        s.com, s.lmom, s.amom = self.A['com'].dot(q), self.A['l'].dot(v), self.A['a'].dot(v)
        self.center_of_mass_jacobian = self.A['com']
        M = np.vstack([self.A['l'], self.A['a']])
        self.centroidal_momentum_matrix = M
        self.centroidal_momentum_matrix_variation = np.zeros((6, 6 + self.nj))
        self.constraints_matrix, self.constraints_vector = np.zeros((1, 6 + self.nj)), np.ones(1)
        for e in range(4):
            self.endeffector_jacobians[e] = self.A[e]
            s.endeffector_positions[e] = self.A[e].dot(q)
        self.rec['updates'] = self.rec.get('updates', 0) + 1
        self.rec['read_back'] = self.rec.get('read_back', True) and same(self.center_of_mass_jacobian, self.A['com']) and same(self.centroidal_momentum_matrix, M) and \
            all(same(self.endeffector_jacobians[e], self.A[e]) for e in range(4)) and self.constraints_matrix.shape == (1, 6 + self.nj) and same(self.constraints_vector, np.ones(1)) and self.centroidal_momentum_matrix_variation.shape == (6, 6 + self.nj)
        return s

    def integratePosture(self, s, dt):
        v = np.array(s.robot_velocity.generalized_joint_velocities)
        p = s.robot_posture
        p.base_position = p.base_position + v[:3] * dt
        p.joint_positions = p.joint_positions + v[6:] * dt
        return s

    def differentiatePostures(self, a, b, dt):
        v = np.zeros(6 + self.nj)
        v[:3] = (b.robot_posture.base_position - a.robot_posture.base_position) / dt
        v[6:] = (b.robot_posture.joint_positions - a.robot_posture.joint_positions) / dt
        b.robot_velocity.generalized_joint_velocities = v
        return b


def scenario(r, f, nj):
    n, dt = r.irange(3, 8), .1
    w3 = lambda a, b: yv([r.logu(a, b)] * 3)
    T = ['planner_variables:', '  heuristic: ' + r.choice(['TrustRegion', 'SoftConstraint']), '  friction_cone: ' + r.choice(['LinearCone', 'SocCone'])]
    v = dict(load_kinematics=True, num_dofs=nj, kd_iterations=1, num_subsamples=1, display_motion=False, time_step=dt, time_horizon=round(n * dt, 6), n_act_eefs=2, min_rel_height=.1, num_com_viapoints=0,
             gravity=9.81, robot_mass=5., floor_height=0., friction_coeff=.7, use_second_order_inv_kin=False, max_trajectory_iters=1, max_convergence_iters=r.irange(1, 3), convergence_tolerance=1e-3,
             slacks_penalty=1e4, integration_step=dt, lambda_regularization=.01, store_data=False, use_default_solver_setting=True, num_joint_viapoints=0, num_base_viapoints=0, w_trq_arm=1., w_trq_leg=1.)
    for k, kind, p, g in PLANNER:
        if g in '-k1' and k not in v:
            v[k] = {'2': [-.1, .1], '3': np.full(3, r.logu(.1, 10)), '4': np.full(4, 9.), 'X': np.full(6 + nj if 'joint_' in k and 'default' not in k else nj, 1.), 'd': r.logu(.01, 1), 'i': 1, 'b': False, 'I': list(range(nj))}[kind]
    v.update(external_force=np.zeros(3), com_displacement=np.array([.02, .01, 0.]), min_joint_limits=np.full(nj, -2.), max_joint_limits=np.full(nj, 2.), default_joint_positions=np.zeros(nj))
    for k, x in v.items():
        T.append('  %s: %s' % (k, yv(x)))
    T += ['  com_viapoints: []', '  joint_viapoints: []', '  base_viapoints: []']
    for e in ('rf', 'lf', 'rh', 'lh'):
        T += ['  cop_range_%s: [-0.05, 0.05, -0.03, 0.03]' % e, '  eff_offset_%s: [0, 0, 0]' % e]
    pos = [[.086, .15, -.92], [-.086, .15, -.92], [.3, .3, .1], [-.3, .3, .1]]
    T += ['initial_robot_configuration:', '  com: [0, 0.15, 0]', '  lmom: [0, 0, 0]', '  amom: [0, 0, 0]', '  eef_ctrl:']
    T += ['    eef_frc_%s: %s' % (nm, yv([0., 0., .5 if e < 2 else 0.])) for e, nm in enumerate(('rf', 'lf', 'rh', 'lh'))] + ['  eef_pose:']
    T += ['    eef_%s: %s' % (nm, yv([float(e < 2)] + pos[e] + [1., 0., 0., 0.])) for e, nm in enumerate(('rf', 'lf', 'rh', 'lh'))]
    T += ['contact_plan:']
    for e, nm in enumerate(('rf', 'lf', 'rh', 'lh')):
        T += ['  effvia_%s: []' % nm, '  effcnt_%s: [%s]' % (nm, yv([0., 99.] + pos[e] + [1., 0., 0., 0., 1., -1.]) if e < 2 else '')]
    open(f, 'w').write('\n'.join(T) + '\n')
    return n, dt


def planners(c):
    r = c.rng
    nj = r.irange(1, 4)
    f = os.path.join(DIR, 'plan%d.yaml' % c.id)
    n, dt = scenario(r, f, nj)
    rec = {}

    def make():
        s = PlannerSetting()
        s.initialize(f)
        plan = ContactPlanFromFile()
        plan.initialize(s)
        dyn = DynamicsOptimizer()
        dyn.initialize(s)
        kin = KinematicsOptimizer()
        toy = Toy(r, nj, rec)
        kin.initialize(s, toy)
        return plan, dyn, kin, toy.A
    plan, dyn, kin, A = make()
    gc.collect()                                            # setting and interface have no other owner than the planners
    ini = DynamicsState()
    ini.fillInitialRobotState(f)
    plan.optimize(ini, TerrainDescription())
    code = dyn.optimize(ini, plan, kin.kinematicsSequence())
    seq = dyn.dynamicsSequence()
    c.require('plan_length', seq.size() == n and len(seq.dynamics_states) == n, '%d %d' % (seq.size(), n))
    c.require('exit_code', code in (pysolver.ExitCode.Optimal, pysolver.ExitCode.OptimalInacc, pysolver.ExitCode.ReachMaxIters, pysolver.ExitCode.NotConverged, pysolver.ExitCode.PrSearchDirection), str(code))
    c.require('interface_sees_the_setting', rec.get('setting') == (nj, dt), str(rec.get('setting')))
    kin.optimize(ini, plan, seq, True)
    ks = kin.kinematicsSequence()
    c.require('interface_is_used', rec.get('updates', 0) >= n, str(rec.get('updates')))
    c.require('matrices_read_back', rec.get('read_back'), '')
    c.require('kinematic_plan_length', ks.size() == n, str(ks.size()))
    for k, s in enumerate(ks.kinematics_states):
        q = np.concatenate([s.robot_posture.base_position, np.zeros(3), s.robot_posture.joint_positions])
        v = np.array(s.robot_velocity.generalized_joint_velocities)
        c.check('plan_is_what_the_interface_computed', np.abs(s.com - A['com'].dot(q)).max(), 1e-9, 'com of step %d' % k)
        for e in range(4):
            c.check('plan_is_what_the_interface_computed', np.abs(s.endeffector_positions[e] - A[e].dot(q)).max(), 1e-9, 'effector %d of step %d' % (e, k))
    # a sequence handed out is the reader's: it keeps its values when the planner plans again or goes away
    a = [np.array(s.com) for s in seq.dynamics_states]
    b = [np.array(s.effForce(0)) for s in seq.dynamics_states]
    k0 = [np.array(s.com) for s in ks.kinematics_states]
    dyn.optimize(ini, plan, ks, True)
    kin.optimize(ini, plan, dyn.dynamicsSequence(), False)
    t = dyn.solveTime()
    c.require('solve_time', t > 0, str(t))
    last = dyn.dynamicsSequence()
    z = [np.array(s.com) for s in last.dynamics_states]
    del plan, dyn, kin
    gc.collect()
    c.require('handed_out_plan_stays', all(same(s.com, x) and same(s.effForce(0), y) for s, x, y in zip(seq.dynamics_states, a, b)) and all(same(s.com, x) for s, x in zip(last.dynamics_states, z)) and all(same(s.com, x) for s, x in zip(ks.kinematics_states, k0)))
    repr(seq.dynamics_states[0])
    # feedback for the plan: the same gains whether or not somebody else keeps the settings
    g = os.path.join(DIR, 'fb%d.yaml' % c.id)
    open(g, 'w').write(LQRTXT % (r.choice([1, 3]), round(n * dt, 6)))
    keep, gains = [], []
    for own in (True, False):
        fb = DynamicsFeedback()

        def start():
            st, ls = PlannerSetting(), pl.SolverLqrSetting()
            st.initialize(f)
            st.set(PlannerIntParam_NumTimesteps, n)
            ls.initialize(g, 'solverlqr_dynamics')
            if own:
                keep.extend([st, ls])
            fb.initialize(ls, st)
        start()
        gc.collect()
        fb.optimize(ini, seq)
        gains.append([np.array(fb.forceGain(k)) for k in range(-1, n + 1)])
        x = fb.forceGain(0)
        del fb
        gc.collect()
        c.require('gain_stays', same(x, gains[-1][1]))
    os.unlink(f)
    os.unlink(g)
    c.require('gain_shape', all(x.shape == (6, 9) and np.isfinite(x).all() for x in gains[0]), str([x.shape for x in gains[0]]))
    c.require('gains_do_not_depend_on_owner', all(same(a, b) for a, b in zip(*gains)))
    c.require('gain_time_clamped', same(gains[0][0], gains[0][1]) and same(gains[0][-1], gains[0][-2]))
    c.count('plans_through_python')
    c.sig = 'planners:%d:%d:%s' % (nj, n, code)
    c.sample = '%d joints, %d steps, %s, %d interface updates' % (nj, n, code, rec.get('updates', 0))


def terrain(c):
    r = c.rng
    f = os.path.join(DIR, 'ter%d.yaml' % c.id)
    n = r.irange(0, 3)
    txt = 'terrain_description:\n'
    z = []
    for k in range(n):
        h = round(r.uni(-1, 1), 3)
        z.append(h)
        txt += '  surface%d:\n' % k
        for i, (x, y) in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))):
            txt += '    v%d: [%g, %g, %g]\n' % (i, x + 2 * k, y, h)
    if n == 0:
        txt += '  {}\n'
    open(f, 'w').write(txt)
    t = TerrainDescription()
    t.loadFromFile(f)
    t.loadFromFile(cfg_file=f, terrain_description_name='terrain_description') if r.chance(.3) else None
    s = repr(t)
    c.require('terrain_text', isinstance(s, str))
    os.unlink(f)
    d = DynamicsState()
    c.sig = 'terrain:%d' % n


def one(c):
    c.require('modules_load', LOAD is None, LOAD)
    if LOAD is not None:
        return
    p = c.rng.random()
    fn = names if c.id < 1 else settings if p < .3 else lqr_settings if p < .36 else dyn_states if p < .54 else kin_states if p < .72 else contacts if p < .88 else planners if p < .97 else terrain
    c.nontrivial = True
    c.count('kind:' + fn.__name__)
    fn(c)


def init():
    global DIR
    DIR = tempfile.mkdtemp(prefix='vk-m09-')


import atexit
atexit.register(lambda: DIR and shutil.rmtree(DIR, ignore_errors=True))
vk.run('m09_bindings', one, init)
