"""Synthetic legged robots with the frame names of the real ones; the real description packages are not installed here."""
import numpy as np
import pinocchio as pin
from pinocchio.robot_wrapper import RobotWrapper

SCALE = dict(mass=1., leg=1., body=1.)          # a monitor may change the proportions before a robot is built


def inertia(m, lever, d):
    return pin.Inertia(m, np.array(lever), m / 12. * np.diag([d[1] ** 2 + d[2] ** 2, d[0] ** 2 + d[2] ** 2, d[0] ** 2 + d[1] ** 2]))


def build(effs, haa):
    m, leg, body = SCALE['mass'], SCALE['leg'], SCALE['body']
    model = pin.Model()
    base = model.addJoint(0, pin.JointModelFreeFlyer(), pin.SE3.Identity(), 'root_joint')
    model.appendBodyToJoint(base, inertia(1.43 * m, [0, 0, 0.], [.4 * body, .2 * body, .05]), pin.SE3.Identity())
    model.addFrame(pin.Frame('base_link', base, 0, pin.SE3.Identity(), pin.FrameType.BODY))
    for e in effs:
        x = .19 * body * (1 if e[0] == 'F' else -1) if len(effs) == 4 else 0.
        y = .1 * body * (-1 if e[1] == 'R' else 1)
        parent, place = base, pin.SE3(np.eye(3), np.array([x, y, 0]))
        axes = ([('HAA', pin.JointModelRX(), np.zeros(3))] if haa else []) + [('HFE', pin.JointModelRY(), np.array([0, .01 if y > 0 else -.01, 0])), ('KFE', pin.JointModelRY(), np.array([0, 0, -.16 * leg]))]
        for k, (n, j, off) in enumerate(axes):
            pl = pin.SE3(np.eye(3), off)
            parent = model.addJoint(parent, j, place * pl if k == 0 else pl, '%s_%s' % (e, n))
            model.appendBodyToJoint(parent, inertia((.05 if n == 'HAA' else .14 if n == 'HFE' else .05) * m, [0, 0, 0 if n == 'HAA' else -.08 * leg], [.03, .03, .16 * leg]), pin.SE3.Identity())
            model.addFrame(pin.Frame('%s_%s' % (e, n), parent, 0, pin.SE3.Identity(), pin.FrameType.JOINT))
        model.addFrame(pin.Frame('%s_ANKLE' % e, parent, 0, pin.SE3(np.eye(3), np.array([0, 0, -.16 * leg])), pin.FrameType.FIXED_JOINT))
    return RobotWrapper(model)
