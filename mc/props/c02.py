"""Algebraic laws of hat/invhat/rot/screw_matrix/quaternions; random generators under an enumerated random source."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref
from mc.core import need, tick, state
from mc.props.c01 import binary_octahedral

ID = 'C02'
PI = math.pi
BOUNDS = {'quick': 'all vectors of {0,1,-2,0.3,-1e-8,1e6}^3 and all pairs of {-1,0,1,2}^3 as array, integer array, list and column; 49+24 axes x 65 angles in '
                   '[-4pi,4pi] with tiny offsets; the whole binary octahedral group (48 quaternions, all 2304 products) and all quaternions of {-2..2}^4 and '
                   '{0,1,-0.3,1e-8,50}^4; all random-source outcomes {0,1.1e-16,.5,1-2^-53}^4 and {0,.5,1-2^-53}^7 (except all-zero quaternion draws)',
          'thorough': 'as quick with axes of {-3..3}^3, all pairs of {-2..2}^3 and {0,1.1e-16,.3,1-2^-53}^7 random-source outcomes'}
ASSUME = ['the random source does not return four exact zeros in a row (probability 2^-212)']


def near(a, b, tol=1e-13):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * max(1.0, float(np.max(np.abs(b))))))


def ref_hat(k):
    x, y, z = [float(a) for a in np.ravel(k)]
    return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])


def forms(v):
    yield 'array', np.array(v, dtype=float)
    yield 'list', list(v)
    yield 'column', np.array(v, dtype=float).reshape(3, 1)
    if all(float(a).is_integer() for a in v):
        yield 'int', np.array([int(a) for a in v])


def k_vec(p):
    v = p['v']
    for nm, k in forms(v):
        K = rox.hat(k)
        tick()
        need(near(K, ref_hat(v), 0), 'hat(%s %s) = %s', nm, v, K)
        w = rox.invhat(np.asarray(K))
        tick()
        need(near(np.ravel(w), v, 1e-15), 'invhat(hat(%s %s)) = %s', nm, v, w)
        G = rox.screw_matrix(k)
        tick()
        E = np.eye(6)
        E[:3, 3:] = ref_hat(v)
        need(near(G, E, 0), 'screw_matrix(%s %s) = %s', nm, v, G)


def k_pair(p):
    a, b = [np.array(x, dtype=float) for x in p['ab']]
    need(near(rox.hat(a).dot(b), ref.cross(a, b)), 'hat(%s)*%s is not the cross product', a, b)
    Ga, Gb = rox.screw_matrix(a), rox.screw_matrix(b)
    need(near(np.matmul(Ga, Gb), rox.screw_matrix(a + b)), 'screw matrices of %s and %s do not compose', a, b)
    # wrench (torque b, force a-b+1) moved by a: torque grows by a x force
    f = a - b + 1
    w = np.matmul(Ga, np.concatenate((b, f)))
    need(near(w, np.concatenate((b + ref.cross(a, f), f))), 'screw_matrix(%s) does not map the wrench %s,%s', a, b, f)
    # twist (omega b, velocity f): velocity at the other point
    t = np.matmul(np.transpose(Ga), np.concatenate((b, f)))
    need(near(t, np.concatenate((b, f + ref.cross(b, a)))), 'transpose of screw_matrix(%s) does not map the twist', a)
    tick(5)


def k_rot(p):
    k, th = ref.unit(p['k']), p['th']
    E = ref.rotm(k, th)
    fs = [k, list(k), k.reshape(3, 1)]
    if sum(abs(a) for a in p['k']) == 1:
        fs.append(np.array([int(a) for a in p['k']]))
    for f in fs:
        R = rox.rot(f, th)
        tick()
        need(near(R, E, 2e-14), 'rot(%s,%r) = %s, expected %s', f, th, R, E)
    R = rox.rot(k, np.float64(th))
    need(near(np.matmul(R.T, R), np.eye(3), 2e-14) and abs(np.linalg.det(R) - 1) < 2e-14, 'rot not proper orthogonal')
    need(near(np.matmul(R, rox.rot(k, -th)), np.eye(3), 2e-14), 'rot(k,th)rot(k,-th) is not I')
    tick(2)


def k_quat(p):
    q = np.array(p['q'])          # integer or float array
    qf = q.astype(float)
    Q = rox.quatproduct(q)
    tick()
    E = np.array([ref.qmul(qf, e) for e in np.eye(4)]).T
    need(near(Q, E), 'quatproduct(%s) = %s, expected %s', q, Q, E)
    c = rox.quatcomplement(q)
    tick()
    need(near(c, ref.qconj(qf), 0), 'quatcomplement(%s) = %s', q, c)
    need(near(np.matmul(Q, np.asarray(c, dtype=float)), [float(np.sum(qf ** 2)), 0, 0, 0]), 'q*complement(q) is not |q|^2')
    J = rox.quatjacobian(q)
    tick()
    EJ = np.array([0.5 * ref.qmul(np.concatenate(([0.], e)), qf) for e in np.eye(3)]).T
    need(near(J, EJ), 'quatjacobian(%s) = %s, expected %s', q, J, EJ)


def k_group(p):
    a = np.array(p['a'])
    for b in binary_octahedral():
        b = np.array(b)
        c = np.matmul(rox.quatproduct(a), b)
        need(near(c, ref.qmul(a, b)), 'quatproduct(%s)*%s = %s', a, b, c)
        state(['g'] + [round(x, 6) + 0.0 for x in c])
        need(near(rox.q2R(c), np.matmul(rox.q2R(a), rox.q2R(b)), 1e-13), 'q2R is not a homomorphism at %s,%s', a, b)
        need(near(rox.q2R(a), ref.q2m(a)), 'q2R(%s)', a)
        # inverse rotation
        need(near(rox.q2R(rox.quatcomplement(c)), rox.q2R(c).T), 'complement of %s is not the inverse rotation', c)
        # velocity of the rotated vector by the chain rule: d/dt R(q) = hat(w) R
        tick(4)
        for w in ([1., 0, 0], [0, 1., 0], [0, 0, 1.], [.3, -.7, .2]):
            h = 1e-6
            qd = np.matmul(rox.quatjacobian(c), np.array(w))
            d = (ref.q2m(c + h * qd) - ref.q2m(c - h * qd)) / (2 * h)
            need(np.max(np.abs(d - ref_hat(w) @ ref.q2m(c))) < 1e-7, 'quatjacobian(%s) is not the rate for angular velocity %s', c, w)
            tick()


class Source(object):
    """Stands in for numpy's global random source; answers come from an enumerated list."""
    NAMES = ('rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform', 'randn', 'standard_normal', 'normal')

    def __init__(self, vals):
        self.vals, self.i = vals, 0

    def next(self):
        v = self.vals[self.i % len(self.vals)]
        self.i += 1
        return v

    def arr(self, size, f):
        if size is None or size == ():
            return f(self.next())
        size = (size,) if np.isscalar(size) else tuple(size)
        return np.array([f(self.next()) for _ in range(int(np.prod(size)))]).reshape(size)

    def __enter__(self):
        r = np.random
        self.saved = {n: getattr(r, n) for n in self.NAMES if hasattr(r, n)}
        one = lambda u: u
        gauss = lambda u: 4 * u - 2 + 1e-3
        r.rand = lambda *s: self.arr(s, one)
        r.random = r.random_sample = r.ranf = r.sample = lambda size=None: self.arr(size, one)
        r.uniform = lambda low=0., high=1., size=None: self.arr(size, lambda u: low + (high - low) * u)
        r.randn = lambda *s: self.arr(s, gauss)
        r.standard_normal = lambda size=None: self.arr(size, gauss)
        r.normal = lambda loc=0., scale=1., size=None: self.arr(size, lambda u: loc + scale * gauss(u))
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)


def valid_R(R, what):
    need(isinstance(R, np.ndarray) and R.shape == (3, 3) and np.all(np.isfinite(R)), '%s gave %s', what, R)
    need(np.max(np.abs(R @ R.T - np.eye(3))) < 1e-12 and abs(np.linalg.det(R) - 1) < 1e-12, '%s is not a rotation: %s', what, R)


def valid_p(v, what):
    need(isinstance(v, np.ndarray) and v.shape == (3,) and np.all(np.isfinite(v)), '%s gave %s', what, v)


def k_rand(p):
    u = p['u']
    with Source(u):
        R = rox.random_R()
    valid_R(R, 'random_R')
    with Source(u):
        v = rox.random_p()
    valid_p(v, 'random_p')
    with Source(u):
        T = rox.random_transform()
    valid_R(T.R, 'random_transform().R')
    valid_p(T.p, 'random_transform().p')
    need(T.parent_frame_id is None and T.child_frame_id is None, 'random_transform has frame names')
    tick(3)


def k_identity(p):
    T = rox.identity_transform()
    tick()
    need(near(T.R, np.eye(3), 0) and near(T.p, np.zeros(3), 0) and T.parent_frame_id is None and T.child_frame_id is None, 'identity_transform is %s', T)
    T.R[0, 0] = 5
    T.p[1] = 7
    T2 = rox.identity_transform()
    need(near(T2.R, np.eye(3), 0) and near(T2.p, np.zeros(3), 0), 'identity_transform changed by its caller')
    state(1)


KINDS = dict(vec=k_vec, pair=k_pair, rot=k_rot, quat=k_quat, group=k_group, rand=k_rand, identity=k_identity)


def axes(tier):
    from mc.props.c01 import axes
    return axes(tier)


def shards(tier):
    out = [['vec', tier, 0], ['pair', tier, 0], ['pair', tier, 1], ['pair', tier, 2], ['pair', tier, 3], ['identity', tier, 0]]
    out += [['rot', tier, i] for i in range(8)] + [['quat', tier, i] for i in range(5)] + [['group', tier, i] for i in range(8)]
    out += [['rand', tier, i] for i in range(4)]
    return out


def cases(sh):
    what, tier, i = sh
    if what == 'identity':
        yield 'identity', 0
    elif what == 'vec':
        for v in itertools.product((0, 1, -2, 0.3, -1e-8, 1e6), repeat=3):
            yield 'vec', dict(v=v)
    elif what == 'pair':
        al = (-1, 0, 1, 2) if tier == 'quick' else (-2, -1, 0, 1, 2)
        vs = list(itertools.product(al, repeat=3))
        for a in vs[i::4]:
            for b in vs:
                yield 'pair', dict(ab=[a, b])
    elif what == 'rot':
        angs = [k * PI / 8 for k in range(-32, 33)] + [s * (b + e) for s in (1, -1) for b in (0, PI / 2, PI) for e in (1e-3, 1e-5, 1e-7, 1e-9, 1e-12)]
        for k in axes(tier)[i::8]:
            for th in angs:
                yield 'rot', dict(k=k, th=th)
    elif what == 'quat':
        for q in itertools.product((-2, -1, 0, 1, 2), repeat=4):
            if q[0] == i - 2:
                yield 'quat', dict(q=q)
        al = (0., 1., -0.3, 1e-8, 50.)
        for q in itertools.product(al, repeat=4):
            if q[0] == al[i]:
                yield 'quat', dict(q=q)
    elif what == 'group':
        for a in binary_octahedral()[i::8]:
            yield 'group', dict(a=a)
    else:
        top = 1 - 2.0 ** -53
        al = (0., 1.1102230246251565e-16, .5, top)
        for u in itertools.product(al, repeat=4):
            if u[0] == al[i] and any(u):
                yield 'rand', dict(u=list(u))
        al3 = (0., .5, top) if tier == 'quick' else (0., 1.1102230246251565e-16, .3, top)
        for n, u in enumerate(itertools.product(al3, repeat=7)):
            if n % 4 == i and all(any((u + u)[j:j + 4]) for j in range(7)):
                yield 'rand', dict(u=list(u))
