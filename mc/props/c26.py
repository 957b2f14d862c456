"""The same numbers in another representation: every call of the catalogue with every assignment of array types and layouts to its arguments."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from general_robotics_toolbox import general_robotics_toolbox_invkin as ik
from mc import catalog as C, ref, robots
from mc.core import need, tick, state, CaseTimeout

ID = 'C26'
PI = math.pi
BOUNDS = {'quick': 'every call of the catalogue (core, inverse kinematics) and 90 calls on whole-number arguments (24 cube rotations, quaternions, vectors, joints, robots) x every assignment of {column order, strided view, reversed view, read-only, '
                   'other byte order, 64- and 32-bit integers for whole numbers} to the arguments (all assignments for up to 3 arguments, pairs beyond); robots with each array and each pair of arrays in another representation; lists and tuples where documented',
          'thorough': 'also Tesseract, message and loader calls, all assignments for 4 arguments'}
ASSUME = ['documented argument types: numpy arrays; lists and tuples for previous joints, starting joints, limits and joint types', 'values agree within 1e-9', 'half precision, single precision and integers shorter than 32 bits are excluded',
          'text of transforms is not compared']


def rep(a, k):
    if k == 'F':
        return np.asfortranarray(a) if a.ndim > 1 else a
    if k == 'view':
        v = np.full(tuple(2 * n + 1 for n in a.shape), 7.25)[tuple(slice(1, None, 2) for n in a.shape)]
        v[...] = a
        return v
    if k == 'neg':
        f = tuple(slice(None, None, -1) for n in a.shape)
        return a[f].copy()[f]
    if k == 'ro':
        a = a.copy()
        a.setflags(write=False)
        return a
    if k == 'be':
        return a.astype('>f8')
    if k in ('i8', 'i4'):
        return a.astype(k) if np.all(a == np.round(a)) else a
    if k == 'list':
        return a.tolist()
    if k == 'tuple':
        return tuple(a.tolist())
    return a


REPS = ['plain', 'F', 'view', 'neg', 'ro', 'be', 'i8', 'i4']
PARTS = ('H', 'P', 'joint_type', 'joint_lower_limit', 'joint_upper_limit', 'R_tool', 'p_tool', 'T_flange', 'T_base')


def conv(x, k, only=None):
    if isinstance(x, np.ndarray) and x.dtype.kind == 'f' and x.ndim:
        return rep(x, k)
    if isinstance(x, list):
        return [conv(a, k) for a in x]
    if isinstance(x, rox.Transform):
        x.R, x.p = rep(np.asarray(x.R, dtype=float), k), rep(np.asarray(x.p, dtype=float), k)
    elif isinstance(x, rox.Robot):
        for n in PARTS:
            v = getattr(x, n, None)
            if v is not None and (only is None or n in only):
                setattr(x, n, conv(np.asarray(v, dtype=float) if n == 'joint_type' and k not in ('i8', 'i4') else v, k))
    return x


def outcome(f, args):
    try:
        return ['value', C.norm(f(*args))]
    except CaseTimeout:
        raise
    except Exception as e:
        return ['exception', type(e).__name__]


def judge(what, f, make, assignments):
    want = outcome(f, make({}))
    for a in assignments:
        got = outcome(f, make(a))
        tick()
        need(C.same(got, want, 1e-9), '%s with %s gives %s, expected %s', what, a, str(got)[:300], str(want)[:300])


def combos(n, full):
    if n <= full:
        return [dict(enumerate(c)) for c in itertools.product(REPS, repeat=n)][1:]
    out = []
    for i, j in itertools.combinations(range(n), 2):
        out += [{i: x, j: y} for x in REPS for y in REPS]
    return out + [{i: x for i in range(n)} for x in REPS]


SEQ = (rox.robot6_sphericalwrist_invkin, rox.ur_invkin, rox.equivalent_configurations, rox.iterative_invkin)


def jobs(f, keys, full):
    """(assignment of representations to arguments, {argument: only these parts of the robot})"""
    for a in combos(len(keys), full):
        yield a, {}
    for i, k in enumerate(keys):
        if k.startswith('robot:'):      # parts of the robot one by one and in pairs
            for only in itertools.chain(((x,) for x in PARTS), itertools.combinations(PARTS, 2)):
                for r in REPS[1:]:
                    yield {i: r}, {i: only}
        elif k[:2] in ('q:', 'q2', 'qn', 'ql', 'qi') and f in SEQ and k.split(':')[0] != 'qlist':   # documented sequences
            yield {i: 'list'}, {}
            yield {i: 'tuple'}, {}


def k_op(p):
    f, keys = C.ops(p['extra'])[p['op']]
    for n, (a, only) in enumerate(jobs(f, keys, p['full'])):
        if n % p['of'] == p['i']:
            judge('%s%s' % (p['op'], ' '.join('; %s of the robot' % (x,) for x in only.values())), f, lambda a: [conv(C.pool(k), a.get(j, 'plain'), only.get(j) if a else None) for j, k in enumerate(keys)], [a])
    state(p['op'])


A = lambda *x: np.array(x, dtype=float)


def whole():
    """Calls on whole numbers: (name, function, arguments)."""
    G = ref.cube_group()
    E = [A(1, 0, 0), A(0, 1, 0), A(0, 0, 1), A(0, -1, 0)]
    Q = [A(1, 0, 0, 0), A(0, 1, 0, 0), A(0, 0, 0, -1), A(-1, 0, 0, 0), A(0, 0, 1, 0)]
    V = [A(1, 2, 3), A(2, 0, -1), A(0, 3, 4), A(-5, 1, 0)]
    for n, M in enumerate(G):
        M = np.array(M, dtype=float)
        for f in (rox.R2rot, rox.R2q, rox.R2rpy):
            yield f.__name__, f, [M]
        T = lambda: 0
        yield 'Transform products', lambda a, b: (a * b, a.inv(), a.inv() * b, b == a, a.isclose(b)), [('T', M, V[n % 4]), ('T', np.array(G[(n * 5 + 1) % 24], dtype=float), V[(n + 1) % 4])]
    for k in E:
        for v in V:
            yield 'screw', lambda a, b: (rox.hat(a), rox.screw_matrix(b), rox.rot(a, 1), rox.rot(a, .3), rox.rot2q(a, 2), rox.invhat(rox.hat(b))), [k, v]
            yield 'subproblem3', rox.subproblem3, [v, V[0], k, 3]
            yield 'subproblem4', rox.subproblem4, [k, v, E[1], 1]
            w = np.round(ref.rotm(k, PI / 2)) @ v
            yield 'subproblem1', rox.subproblem1, [v, w, k]
            yield 'subproblem1', lambda a, b, c: rox.subproblem1(a, rox.rot(c, .3).dot(a), c), [v, w, k]
            for k2 in E[:2]:
                yield 'subproblem2', rox.subproblem2, [v, np.round(ref.rotm(k2, PI / 2)) @ w, k2, k]
        for k2 in E:
            if abs(k.dot(k2)) < .5:
                yield 'subproblem0', rox.subproblem0, [k2, ref.cross(k, k2), k]
    yield 'invhat', rox.invhat, [A(0, -3, 2, 3, 0, -1, -2, 1, 0).reshape(3, 3)]
    for a in Q:
        yield 'quaternion', lambda q: (rox.q2R(q), rox.q2rot(q), rox.quatcomplement(q), rox.quatproduct(q), rox.quatjacobian(q)), [a]
        for b in Q:
            for t in (0, 1, .25):
                if abs(a.dot(b)) < .5 or t != .25:
                    yield 'slerp', lambda x, y: rox.slerp(x, y, t), [a, b]
    yield 'rpy2R', rox.rpy2R, [A(1, 0, -2)]
    # robots described in whole numbers
    H = [(0, 0, 1), (0, 1, 0), (0, 1, 0), (1, 0, 0), (0, 1, 0), (1, 0, 0)]
    P = [(0, 0, 2), (1, 0, 0), (0, 0, 3), (1, 0, 1), (2, 0, 0), (0, 0, 0), (1, 0, 0)]
    q = A(1, 0, -1, 1, 1, 0)
    for types in ([0] * 6, [0, 1, 0, 1, 0, 1]):
        for lim in (None, 7):
            for aux in (0, 1):
                kw = dict(H=np.array(H, dtype=float).T, P=np.array(P, dtype=float).T, t=A(*types), lo=None if lim is None else A(*[-7] * 6), up=None if lim is None else A(*[7] * 6),
                          base=('T', np.array(G[5], dtype=float), A(1, 2, 3)) if aux else None, tool=(np.array(G[7], dtype=float), A(0, 0, 1)) if aux else None)
                r = ('R', kw)
                yield 'fwdkin', rox.fwdkin, [r, q]
                yield 'robotjacobian', rox.robotjacobian, [r, q]
                yield 'iterative_invkin', lambda r, q: rox.iterative_invkin(r, rox.fwdkin(r, q), q + .02, 30), [r, q]
                yield 'iterative_invkin', lambda r, q: rox.iterative_invkin(r, rox.fwdkin(r, q + .02), q, 30), [r, q]
                if not any(types):
                    yield 'robot6_sphericalwrist_invkin', lambda r, q: rox.robot6_sphericalwrist_invkin(r, rox.fwdkin(r, q)), [r, q]
                    yield 'robot6_sphericalwrist_invkin', lambda r, q: rox.robot6_sphericalwrist_invkin(r, rox.fwdkin(r, q + .3), q), [r, q]
                if lim:
                    yield 'equivalent_configurations', lambda r, q: rox.equivalent_configurations(r, [q], None), [r, q]
                    yield 'equivalent_configurations', lambda r, q: rox.equivalent_configurations(r, [q, q + 1], q), [r, q]
                if aux:
                    yield 'aux', lambda r, T: (rox.apply_robot_aux_transforms(r, T), rox.unapply_robot_aux_transforms(r, T)), [r, ('T', np.array(G[3], dtype=float), A(4, 5, 6))]
    for sg in (-1, 1):
        s = robots.ur(1, 4, 3, 2, 1, 2, sg=sg)
        kw = dict(H=np.array(s['H'], dtype=float).T, P=np.array(s['P'], dtype=float).T, t=A(*[0] * 6), lo=None, up=None, base=None, tool=None)
        yield 'ur_invkin', lambda r, q: rox.ur_invkin(r, rox.fwdkin(r, q)), [('R', kw), A(1, -1, 2, 1, 1, 0)]
        yield 'ur_invkin', lambda r, q: rox.ur_invkin(r, rox.fwdkin(r, q + .3), q), [('R', kw), A(1, -1, 2, 1, 1, 0)]


def build(x, k):
    if isinstance(x, np.ndarray):
        return rep(x.copy(), k)
    if isinstance(x, tuple) and x[0] == 'T':
        return rox.Transform(rep(x[1].copy(), k), rep(x[2].copy(), k))
    if isinstance(x, tuple) and x[0] == 'R':
        d = x[1]
        c = lambda v: None if v is None else rep(v.copy(), k)
        return rox.Robot(c(d['H']), c(d['P']), c(d['t']), c(d['lo']), c(d['up']), R_tool=d['tool'] and c(d['tool'][0]), p_tool=d['tool'] and c(d['tool'][1]), T_base=d['base'] and build(d['base'], k))
    return x


def k_whole(p):
    for n, (name, f, args) in enumerate(whole()):
        if n % p['of'] == p['i']:
            judge('%s on whole numbers, call %d' % (name, n), f, lambda a: [build(x, a.get(i, 'plain')) for i, x in enumerate(args)], combos(len([x for x in args if not isinstance(x, (int, float))]), 3))
            state((name, n))


KINDS = dict(op=k_op, whole=k_whole)


def shards(tier):
    return [[tier, o, j, of] for o in C.ops(tier != 'quick') if o.split('/')[0] != 'str' for of in (16 if o.startswith('iter') else 2,) for j in range(of)] + [[tier, None, i, 32] for i in range(32)]


def cases(sh):
    tier, o, i, of = sh
    if o is None:
        yield 'whole', dict(i=i, of=of)
    else:
        yield 'op', dict(op=o, i=i, of=of, extra=tier != 'quick', full=3 if tier == 'quick' else 4)
