"""slerp against the geodesic of the rotation group."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref
from mc.core import need, tick, note
from mc.props.c01 import binary_octahedral

ID = 'C03'
PI = math.pi
TS = [0, 1, 0.0, 1.0, 0.5, 0.25, 0.1, 1.0 / 3, 0.75, 0.99, 1e-6, 0.999999]
BOUNDS = {'quick': 'all 2304 ordered pairs of the 48 binary octahedral quaternions (equal, opposite and half-turn pairs included) and 12 of them times relative rotations about '
                   '13 axes by 0, 1e-9..1e-3 and every pi/12 up to 2pi, with rounding patterns and both signs; scales {1,-1,2,-0.5,1e-3,-1e3} of either '
                   'argument; 12 parameters in [0,1] incl. integers and both ends, 12 outside (from 1e-6 away)',
          'thorough': 'as quick with all 48 first quaternions, 49 axes, pi/24 steps and all pairs of scales'}
ASSUME = ['relative rotations below 4e-6 rad are compared with a tolerance of 4e-6 rad, others with 1e-7 rad',
          'for a relative rotation of exactly half a turn (up to rounding) either of the two shortest paths is accepted']


def qang(a, b):
    """Rotation angle between unit quaternions up to sign."""
    d = min(np.linalg.norm(a - b), np.linalg.norm(a + b))
    return 4 * math.asin(min(1.0, d / 2))


def point(a, b, t, s0, s1, phi, tol, amb):
    q = rox.slerp(a * s0, b * s1, t)
    tick()
    q = np.asarray(q, dtype=float)
    what = 'slerp(%s,%s,%r)' % ((a * s0).tolist(), (b * s1).tolist(), t)
    need(q.shape == (4,) and np.all(np.isfinite(q)), '%s = %s', what, q)
    need(abs(np.linalg.norm(q) - 1) < 1e-9, '%s = %s is not of unit norm', what, q)
    need(abs(qang(q, a) - t * phi) < tol and abs(qang(q, b) - (1 - t) * phi) < tol,
         '%s = %s: %g from the first, %g from the second, expected %g and %g', what, q, qang(q, a), qang(q, b), t * phi, (1 - t) * phi)
    return q


def k_pair(p):
    a, b = np.array(p['a']), np.array(p['b'])
    a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
    phi = qang(a, b)
    tol = 4e-6 if phi < 4e-6 else 1e-7
    amb = abs(np.dot(a, b)) < 1e-7
    if amb:
        tol = 1e-6
    note('half turn' if amb else ('same' if phi < 4e-6 else 'generic'))
    for t in p['t']:
        q0 = None
        for s0, s1 in p['s']:
            q = point(a, b, t, s0, s1, phi, tol, amb)
            if amb:
                # must lie on the great circle through a and b
                r = q - np.dot(q, a) * a
                b2 = b - np.dot(b, a) * a
                b2 /= np.linalg.norm(b2)
                need(np.linalg.norm(r - np.dot(r, b2) * b2) < 1e-6, 'slerp(%s,%s,%s) leaves the plane of its arguments', a, b, t)
            elif q0 is None:
                q0 = q
            else:
                need(qang(q, q0) < 2 * tol, 'slerp(%s,%s,%s) depends on sign or scale %s', a, b, t, (s0, s1))


def k_int(p):
    a, b = np.array(p['a']), np.array(p['b'])
    q = rox.slerp(a, b, 0.5)
    tick()
    ua, ub = a / np.linalg.norm(a), b / np.linalg.norm(b)
    phi = qang(ua, ub)
    need(abs(np.linalg.norm(q) - 1) < 1e-9 and abs(qang(q, ua) - phi / 2) < 4e-6 and abs(qang(q, ub) - phi / 2) < 4e-6, 'slerp(%s,%s,.5) = %s', a, b, q)


def k_refuse(p):
    a, b = np.array(p['a']), np.array(p['b'])
    t = float(p['t'])
    try:
        q = rox.slerp(a, b, t)
    except Exception:
        tick()
        return
    need(False, 'slerp with parameter %s gives %s instead of being refused', t, q)


KINDS = dict(pair=k_pair, int=k_int, refuse=k_refuse)
S1 = [(1, 1), (-1, 1), (1, -1), (2, 1), (1, -0.5), (1e-3, -1e3), (-1, -1)]


def rel(tier):
    n = 12 if tier == 'quick' else 24
    angs = [0.0, 1e-9, 1e-7, 1e-6, 3e-6, 1e-5, 1e-4, 1e-3, PI - 1e-3, PI - 1e-5, PI + 1e-4] + [k * PI / n for k in range(1, 2 * n + 1)]
    ax = [a for a in ref.prim_axes(1 if tier == 'quick' else 2) if a > tuple(-x for x in a)]
    return [(a, g) for a in ax for g in angs]


def shards(tier):
    return [['group', tier, i] for i in range(48)] + [['rel', tier, i] for i in range(12 if tier == 'quick' else 48)] + [['int', tier, 0]]


def cases(sh):
    what, tier, i = sh
    G = binary_octahedral()
    ss = S1 if tier == 'quick' else [(x, y) for x in (1, -1, 2, -.5, 1e-3, -1e3) for y in (1, -1, 2, -.5, 1e-3, -1e3)]
    if what == 'group':
        for b in G:
            yield 'pair', dict(a=G[i], b=b, t=TS, s=ss)
    elif what == 'rel':
        j = (i * 4 + i // 4) % 48 if tier == 'quick' else i
        g = ref.qmul(G[j], ref.aa2q(ref.unit((1, 2, 3)), 0.4)) if i % 2 else np.array(G[j])
        for a, th in rel(tier):
            b = ref.qmul(g, ref.aa2q(ref.unit(a), th))
            yield 'pair', dict(a=g.tolist(), b=b.tolist(), t=TS, s=ss)
            if th < 1e-3:
                for e in itertools.product((0, 1.2e-16, -1.2e-16), repeat=4):
                    yield 'pair', dict(a=g.tolist(), b=(b + np.array(e)).tolist(), t=[.5], s=[(1, 1)])
    else:
        vs = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, -1, 0), (1, 1, 0, 0), (1, -1, 1, 1), (0, 0, 0, 3), (2, 0, 0, 1)]
        for a in vs:
            for b in vs:
                if not (sum(x * y for x, y in zip(a, b)) == 0):
                    yield 'int', dict(a=a, b=b)
                for t in ('-0.01', '1.01', '-1', '2', 'nan', 'inf', '-inf', '1.0005', '-0.0005', '1.000001', '-0.000001', '100'):
                    yield 'refuse', dict(a=[float(x) for x in a], b=[float(x) for x in b], t=t)
