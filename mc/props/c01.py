"""Rotation conversions: every walk of the conversion graph from every rotation of the alphabet."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref
from mc.core import need, tick, note

ID = 'C01'
PI = math.pi
# conversion graph: representation -> (operation name, target representation)
EDGES = {'R': (('R2rot', 'kt'), ('R2q', 'q'), ('R2rpy', 'rpy')),
         'kt': (('rot', 'R'), ('rot2q', 'q')),
         'q': (('q2R', 'R'), ('q2rot', 'kt')),
         'rpy': (('rpy2R', 'R'),)}
BOUNDS = {'quick': 'all walks of length <=3 of the conversion graph from all four representations of all rotations: 49 primitive directions of '
                   '{-2..2}^3 (up to sign, both signs by angle) and 24 nearly axis-aligned axes x 39 angles in [-2pi,2pi] (multiples of pi/12 on a half turn, offsets '
                   '1e-4, 1e-5, 2.5e-6, 1e-7..1e-12 of 0, +-pi, 2pi); all rounding patterns {0,+-2.2e-16}^9 of the matrix at 0 and 180 degrees about 7 axes, all patterns '
                   '{0,+-1e-16,+-4e-9}^4-like of 48 unit quaternions; all roll-pitch-yaw triples on a pi/6 x pi/12 x pi/6 grid with gimbal offsets 1e-2..1e-9 and 0; pitch 1e-5..1e-13 off +-90 degrees with the sine element off by up to 4 ulp',
          'thorough': 'as quick with walks of length <=5, directions of {-3..3}^3, 1e-1..1e-15 offsets, roll-pitch-yaw grid pi/12 and two more matrix rounding magnitudes'}
ASSUME = ['rotations within 2e-6 rad of 0 or 180 degrees are compared with a tolerance of 4e-6 rad (documented snapping of the axis-angle '
          'extraction), all others with 1e-8', 'quaternions whose norm differs from 1 by at most 2e-8 count as unit quaternions carrying rounding']


def axes_near():
    out = []
    for e in (1e-3, 1e-7, 1e-9, 1e-12):
        for a, b, c in ((1, e, 0), (e, 1, -e), (-e, e, 1), (0, 1, e), (-1, e, e), (e, 0, -1)):
            out.append((a, b, c))
    return out


def axes(tier):
    n = 2 if tier == 'quick' else 3
    out = []
    for v in ref.prim_axes(n):
        if v > tuple(-x for x in v):
            out.append(v)
    return out + axes_near()


def angles(tier):
    out = [k * PI / 12 for k in range(-4, 13)]
    out += [-PI, 3 * PI / 2, 2 * PI, -2 * PI, -3 * PI / 2, -PI / 2]
    offs = (1e-4, 1e-5, 2.5e-6, 1e-7, 3e-9, 1e-12) if tier == 'quick' else (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 5e-6, 1e-6, 5e-7, 1e-7, 3e-8, 1e-9, 1e-12, 1e-15)
    for o in offs:
        out += [o, -o, PI - o, PI + o]
        if tier != 'quick':
            out += [-PI + o, 2 * PI - o, -PI - o]
    return out


def zone_tol(th):
    d = abs(ref.wrap(th))
    d = min(d, PI - d)
    return 4e-6 if d < 2e-6 else 1e-8


def rot_of(rep, v):
    """Reference: the matrix that a value of a representation means; also validates it."""
    if rep == 'R':
        M = np.asarray(v, dtype=float)
        need(M.shape == (3, 3) and np.all(np.isfinite(M)), 'matrix is not a finite 3x3 matrix: %s', v)
        need(np.max(np.abs(M @ M.T - np.eye(3))) < 2e-7 and np.linalg.det(M) > 0, 'matrix is not a rotation: %s', M)
        return M
    if rep == 'kt':
        k, th = v
        k = np.ravel(np.asarray(k, dtype=float))
        th = float(th)
        need(k.shape == (3,) and np.all(np.isfinite(k)) and math.isfinite(th), 'axis/angle not finite: %s', v)
        need(abs(np.linalg.norm(k) - 1) < 1e-7, 'axis is not a unit vector: %s', k)
        return ref.rotm(k, th)
    if rep == 'q':
        q = np.asarray(v, dtype=float)
        need(q.shape == (4,) and np.all(np.isfinite(q)), 'quaternion not finite: %s', v)
        need(abs(np.linalg.norm(q) - 1) < 1e-7, 'quaternion is not of unit norm: %s', q)
        return ref.q2m(q)
    r, p, y = [float(a) for a in v]
    need(all(map(math.isfinite, (r, p, y))), 'rpy not finite: %s', v)
    return ref.rpym(r, p, y)


def op(name, v):
    if name == 'rot':
        return rox.rot(v[0], v[1])
    if name == 'rot2q':
        return rox.rot2q(v[0], v[1])
    return getattr(rox, name)(v)


def walk(rep, v, R, tol, depth, hist):
    for name, to in EDGES[rep]:
        if name == 'R2rpy':
            cp = math.hypot(R[0, 0], R[1, 0])
            if cp < 1e-5:
                continue        # gimbal lock has its own cases
            t2 = max(tol, 1e-13 / cp)
            tol_here = t2
        else:
            tol_here = tol
        w = op(name, v)
        tick()
        M = rot_of(to, w)
        if to != 'rpy':
            need(isinstance(w[0] if to == 'kt' else w, np.ndarray), '%s gave %s, not an array', name, type(w))
        d = ref.angle_between(M, R)
        need(d < tol_here, 'after %s the rotation is off by %g rad (tolerance %g): %s', hist + [name], d, tol_here, w)
        if depth > 1:
            walk(to, w, R, tol_here, depth - 1, hist + [name])


def k_start(p):
    """p: axis, angle, depth: all walks from all representations of this rotation."""
    k = ref.unit(p['axis'])
    th = p['angle']
    R = ref.rotm(k, th)
    tol = zone_tol(th)
    d = p['depth']
    walk('kt', (k.copy(), th), R, tol, d, ['kt'])
    walk('kt', (k.reshape((3, 1)).copy(), th), R, tol, 1, ['kt column'])
    q = ref.aa2q(k, th)
    walk('q', q.copy(), R, tol, d, ['q'])
    walk('q', -q, R, tol, d, ['-q'])
    walk('R', R.copy(), R, tol, d, ['R'])
    if abs(math.hypot(R[0, 0], R[1, 0])) > 1e-5:
        rpy = (math.atan2(R[2, 1], R[2, 2]), math.atan2(-R[2, 0], math.hypot(R[0, 0], R[1, 0])), math.atan2(R[1, 0], R[0, 0]))
        walk('rpy', rpy, R, max(tol, 1e-8), d, ['rpy'])
        walk('rpy', np.array(rpy), R, max(tol, 1e-8), 1, ['rpy array'])


def k_int(p):
    """Exact integer valued inputs."""
    ax = np.array(p['axis'])
    for n in range(-4, 5):
        th = n * PI / 2
        R = ref.rotm(ax, th)
        walk('kt', (ax.copy(), th), R, zone_tol(th), 2, ['int kt'])
    q = np.array(p['q'])
    R = ref.q2m(q)
    walk('q', q.copy(), R, 1e-8, 3, ['int q'])
    M = np.array(p['M'])
    walk('R', M.copy(), M.astype(float), 4e-6, 3, ['int R'])


def k_roundR(p):
    k = ref.unit(p['axis'])
    R0 = ref.rotm(k, p['angle'])
    E = np.array(p['e'], dtype=float).reshape(3, 3) * p['mag']
    R = R0 + E
    walk('R', R, R0, 4e-6 if p['angle'] in (0.0, PI) else 1e-7, 2, ['R rounded'])


def k_roundQ(p):
    q0 = np.array(p['q'])
    q = q0 + np.array(p['e'])
    R0 = ref.q2m(q0)
    walk('q', q, R0, 4e-6, 2, ['q rounded'])


def k_rpy(p):
    r, pi_, y = p['rpy']
    R = ref.rpym(r, pi_, y)
    for v in (p['rpy'], np.array(p['rpy']), tuple(p['rpy'])):
        w = rox.rpy2R(v)
        tick()
        need(np.max(np.abs(np.asarray(w) - R)) < 1e-12, 'rpy2R(%s) is %s, expected %s', v, w, R)
    cp = math.hypot(R[0, 0], R[1, 0])
    for M in (R, w):
        cm = math.hypot(M[0, 0], M[1, 0])
        if cm < 1e-15:
            try:
                a = rox.R2rpy(M.copy())
            except Exception:
                note('gimbal refused')
                tick()
                continue
            need(False, 'gimbal lock answered with %s instead of being refused', a)
        if cp < 1e-10:
            continue
        a = rox.R2rpy(M.copy())
        tick()
        note('rpy answered')
        need(len(a) == 3 and all(math.isfinite(float(t)) for t in a), 'R2rpy gave %s', a)
        d = np.max(np.abs(ref.rpym(*[float(t) for t in a]) - R))
        need(d < 1e-9 + 2e-15 / cp, 'R2rpy answers %s for the rotation of %s (off by %g)', a, p['rpy'], d)


def k_gim(p):
    """Pitch close to 90 degrees, with rounding in the element that carries its sine."""
    r, o, y, s = p['rpy']
    R = ref.rpym(r, 0., y)
    c, sn = math.sin(o), s * math.cos(o)
    R = np.array([[math.cos(y) * c, 0, 0], [math.sin(y) * c, 0, 0], [-sn, c * math.sin(r), c * math.cos(r)]])
    cy, sy, cr, sr = math.cos(y), math.sin(y), math.cos(r), math.sin(r)
    R[0, 1:] = cy * sn * sr - sy * cr, cy * sn * cr + sy * sr
    R[1, 1:] = sy * sn * sr + cy * cr, sy * sn * cr - cy * sr
    for u in p['ulp']:
        M = R.copy()
        M[2, 0] *= 1 + u * 1.2e-16
        a = rox.R2rpy(M)
        tick()
        need(len(a) == 3 and all(math.isfinite(float(t)) for t in a), 'R2rpy of\n%r\ngave %s', M, a)
        d = np.max(np.abs(ref.rpym(*[float(t) for t in a]) - R))
        need(d < 1e-9, 'R2rpy answers %s for a pitch %g off 90 degrees (off by %g)', a, o, d)
        note('near gimbal')


KINDS = dict(gim=k_gim, start=k_start, int=k_int, roundR=k_roundR, roundQ=k_roundQ, rpy=k_rpy)
RAX = [(0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, 0), (0, 1, -1), (1, 1, 1), (1, -2, 2)]


def binary_octahedral():
    out = []
    for i in range(4):
        for s in (1., -1.):
            q = [0.] * 4
            q[i] = s
            out.append(q)
    for s in itertools.product((.5, -.5), repeat=4):
        out.append(list(s))
    h = math.sqrt(.5)
    for i, j in itertools.combinations(range(4), 2):
        for s in itertools.product((h, -h), repeat=2):
            q = [0.] * 4
            q[i], q[j] = s
            out.append(q)
    return out


def shards(tier):
    out = [['int', tier, 0]]
    na = len(axes(tier))
    out += [['start', tier, i] for i in range(na)]
    out += [['rpy', tier, i] for i in range(12 if tier == 'quick' else 24)]
    out += [['roundQ', tier, i] for i in range(48)]
    out += [['roundR', tier, a, i] for a in range(len(RAX)) for i in range(9)]
    return out


def cases(sh):
    what, tier = sh[0], sh[1]
    if what == 'int':
        for M in ref.cube_group():
            for ax in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1)):
                q = [0] + list(ax)
                yield 'int', dict(axis=ax, q=q, M=M.astype(int).tolist())
                yield 'int', dict(axis=ax, q=[1, 0, 0, 0], M=M.astype(int).tolist())
    elif what == 'start':
        ax = axes(tier)[sh[2]]
        for th in angles(tier):
            yield 'start', dict(axis=ax, angle=th, depth=3 if tier == 'quick' else 5)
    elif what == 'rpy':
        n = 12 if tier == 'quick' else 24
        r = -PI + sh[2] * 2 * PI / n
        ps = [k * PI / 12 for k in range(-12, 13)]
        for o in (1e-2, 1e-4, 1e-6, 1e-8, 1e-9) if tier == 'quick' else (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9):
            ps += [PI / 2 - o, PI / 2 + o, -PI / 2 + o, -PI / 2 - o]
        for o in (1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-11, 1e-13):
            for j in range(n):
                for s in (1, -1):
                    yield 'gim', dict(rpy=[r, o, -PI + j * 2 * PI / n, s], ulp=list(range(-4, 5)))
        for p in ps:
            for j in range(n):
                yield 'rpy', dict(rpy=[r, p, -PI + j * 2 * PI / n])
    elif what == 'roundQ':
        q = binary_octahedral()[sh[2]]
        for e in itertools.product((0, 1.2e-16, -1.2e-16, 4e-9, -4e-9), repeat=4):
            yield 'roundQ', dict(q=q, e=e)
    else:
        ax = RAX[sh[2]]
        pats = itertools.product((0, 1, -1), repeat=7)
        head = list(itertools.product((0, 1, -1), repeat=2))[sh[3]]
        for e in pats:
            for mag in ((2.2e-16,) if tier == 'quick' else (2.2e-16, 1e-12, 1e-9)):
                yield 'roundR', dict(axis=ax, angle=PI, e=list(head) + list(e), mag=mag)
                if sh[2] == 0:
                    yield 'roundR', dict(axis=ax, angle=0.0, e=list(head) + list(e), mag=mag)
