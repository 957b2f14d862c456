"""Robot Jacobian against the geometric Jacobian (itself checked by differencing the reference kinematics)."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots
from mc.core import need, tick, note
from mc.props import c05
from mc.props.c05 import AX, P0, REAL, FORMS, LIMS, limvals, lat

ID = 'C06'
PI = math.pi
BOUNDS = {'quick': 'every robot of 1 to 3 joints with axes in {+-x,+-y,+-z, two oblique} (3 joints: 5 axes) and every revolute/prismatic mix, all 8 presence patterns of base/flange/tool (below 3 joints also with translations only, rotations only, quarter/half turns), '
                   'joint values {0,pi/2,-2.5,0.7,7} (3 joints: 3 values); 1 to 3 joints with every pattern of zero/nonzero offsets; half a tool; joint values, offsets and auxiliary transforms of 3e-2, 3e-3, ... 3e-8 and 1e2 to 1e4; generic robots of 4-8 joints with every type mix up to 5 joints; 9 real robots on {-1.1,0,2.3}^n; limits: '
                   'mobile bases with 24 axis triples before arms of up to 3 joints and behind one joint; every vector of {far below, below, lower, inside, upper, above, far above}^n for n<=2 and 6 limit shapes and each joint separately on 6/7-joint robots',
          'thorough': '3 joints with 8 axes and 4 values, 4 joints with 4 axes, limits for n<=3'}
ASSUME = ['a joint is clearly outside its limits from 1e-6 on', 'mobile joint types only as a mobile base: two translations of type 3 and a heading of type 2 about right-handed axes']


def close(J, E, what):
    need(isinstance(J, np.ndarray) and J.shape == E.shape, '%s: shape %s, expected %s', what, np.shape(J), E.shape)
    s = max(1.0, float(np.max(np.abs(E))))
    need(np.all(np.isfinite(J)) and np.max(np.abs(J - E)) < 1e-9 * s, '%s: Jacobian is\n%s\nexpected\n%s', what, J, E)


def numdiff(s, q, f=None, h=1e-5):
    f = f or (lambda x: ref.fk(s, x))
    J = np.zeros((6, len(q)))
    T0 = f(q)
    for i in range(len(q)):
        a, b = list(q), list(q)
        a[i] += h
        b[i] -= h
        D = (f(a) - f(b)) / (2 * h)
        W = D[:3, :3] @ T0[:3, :3].T
        J[:3, i] = [W[2, 1], W[0, 2], W[1, 0]]
        J[3:, i] = D[:3, 3]
    return J


def k_jac(p):
    s = p['s']
    r = robots.build(s)
    for n, q in enumerate(p['q']):
        E = ref.jac(s, q)
        if n == 0:
            sc = max(1.0, float(np.max(np.abs(E))), float(np.max(np.abs(q))))
            assert np.max(np.abs(E - numdiff(s, q))) < 1e-7 * sc, 'reference Jacobian inconsistent with reference kinematics'
        J = rox.robotjacobian(r, np.array(q, dtype=float))
        tick()
        close(J, E, 'robotjacobian(%s)' % (q,))
        if n == len(p['q']) // 2:
            # also against the difference quotient of the forward kinematics of the library itself
            D = numdiff(s, q, lambda x: robots.toH(rox.fwdkin(r, np.array(x, dtype=float))))
            e = np.max(np.abs(D - J))
            need(e < 1e-6 * max(1.0, float(np.max(np.abs(E))), float(np.max(np.abs(q)))), 'robotjacobian(%s) is\n%s\nbut fwdkin changes by\n%s', q, J, D)
            tick(2 * len(q))
    close(rox.robotjacobian(r, list(p['q'][-1])), E, 'robotjacobian(list)')
    tick()


def k_types(p):
    s, q = p['s'], p['q']
    E = ref.jac(s, q)
    H, P = np.array(s['H'], dtype=float).T, np.array(s['P'], dtype=float).T
    for jt in (s['type'], np.array(s['type']), tuple(s['type']), np.array(s['type'], dtype=float)):
        kw = {}
        if s.get('tool'):
            kw = dict(R_tool=np.array(s['tool'][0]), p_tool=np.array(s['tool'][1]).reshape(p['pshape']))
        if s.get('base'):
            kw['T_base'] = robots.T(s['base'], 'world', 'base')
        if s.get('flange'):
            kw['T_flange'] = robots.T(s['flange'], 'link_n', 'flange')
        r = rox.Robot(H.copy(), P.copy(), jt, **kw)
        for f in (np.array(q, dtype=float), tuple(q)):
            close(rox.robotjacobian(r, f), E, 'robotjacobian with types %r' % (jt,))
            tick()


def k_lim(p):
    s, q = p['s'], p['q']
    lo, up = [float(x) for x in s['lower']], [float(x) for x in s['upper']]
    inside = all(a <= x <= b for a, x, b in zip(lo, q, up))
    for form in ('array', 'list'):
        f = FORMS[form]
        r = robots.build(s, joint_lower_limit=f(lo), joint_upper_limit=f(up))
        try:
            J = rox.robotjacobian(r, FORMS['list' if form == 'array' else 'array'](q))
        except Exception as e:
            tick()
            need(not inside, 'joint vector %s inside the limits %s..%s is refused (%s: %s)', q, lo, up, type(e).__name__, e)
            note('refused')
            continue
        tick()
        need(inside, 'joint vector %s outside the limits %s..%s is accepted', q, lo, up)
        note('accepted')
        close(J, ref.jac(s, q), 'robotjacobian(%s)' % (q,))


def k_half(p):
    """Half a tool is no tool, half a pair of limits is no limit."""
    s, q = p['s'], p['q']
    n = len(s['type'])
    for bits in (0, 1, 2, 3):
        s2 = robots.aux(s, bits)
        for kw in (dict(R_tool=np.array(robots.TOOL[0])), dict(p_tool=np.array(robots.TOOL[1])), dict(joint_lower_limit=np.zeros(n)), dict(joint_upper_limit=np.zeros(n))):
            close(rox.robotjacobian(robots.build(s2, **kw), np.array(q)), ref.jac(s2, q), 'robotjacobian with %s only' % list(kw))
            tick()


AX24 = [(a, b, tuple(int(v) for v in np.cross(a, b))) for a in AX[:6] for b in AX[:6] if np.dot(a, b) == 0]


def k_mobile(p):
    """Two translations (type 3) and a heading (type 2) give two columns: driving forward and turning."""
    s, n0 = p['s'], p['n0']
    r = robots.build(s)
    ax = s['H'][n0:n0 + 3]
    assert np.allclose(np.cross(ax[0], ax[1]), ax[2])
    for q in p['q']:
        F = ref.jac(s, q)
        S = np.zeros((len(q), len(q) - 1))
        for i in range(n0):
            S[i, i] = 1
        S[n0, n0], S[n0 + 1, n0] = math.cos(q[n0 + 2]), math.sin(q[n0 + 2])
        for i in range(n0 + 2, len(q)):
            S[i, i - 1] = 1
        close(rox.robotjacobian(r, np.array(q, dtype=float)), F @ S, 'robotjacobian of a mobile robot at %s' % (q,))
        tick()


KINDS = dict(fk=k_jac, mobile=k_mobile, types=k_types, lim=k_lim, half=k_half)


def shards(tier):
    return [['mobile', tier, n] for n in range(4)] + \
        [s for s in c05.shards(tier) if not (s[0] == 'lim' and s[2] == 3 and tier == 'quick') and s[0] != 'mob']


def cases(sh):
    if sh[0] != 'mobile':
        yield from c05.cases(sh)
        return
    arm = sh[2]
    for pre in ((), (0,), (1,)):
        if arm == 3 and pre:
            continue
        for suf in itertools.product((0, 1), repeat=arm):
            for k, ax in enumerate(AX24):
                if arm > 1 and k % 4:
                    continue
                t = list(pre) + [3, 3, 2] + list(suf)
                H = [AX[6]] * len(pre) + list(ax) + [AX[7], AX[2], AX[6]][:arm]
                P = (P0 + P0)[:len(t) + 1]
                for b in range(8):
                    q = [list(x[0]) + list(x[1]) + list(x[2]) for x in itertools.product([[0.9] * len(pre)], itertools.product((0, -1.3), (0.6,), (0, PI / 2, -2.5, 0.7)),
                                                                                        itertools.product((0.4, -2.1), repeat=arm))]
                    yield 'mobile', dict(s=robots.aux(robots.mk(H, P, t), b), n0=len(pre), q=q)
