"""URDF mass properties: generated mechanisms x inertial elements against the sum of pseudo-inertia matrices of the rigidly connected links."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref
from mc.core import need, tick, note
from mc.props.c16 import origin, num, TY, path

ID = 'C24'
PI = math.pi
BOUNDS = {'quick': 'chains of 1 and 2 joints: every type (fixed, revolute, prismatic) x origin (none, xyz, rpy, both) per joint x inertial element per link out of 8 (none, zero mass, no origin, xyz, rpy, both, without '
                   'inertia, both with another mass scale); chains of 3: every type and origin combination x 6^4 patterns taken in turn and all 2^4 presence masks; chains of 4 to 6: all type patterns x presence masks in turn; '
                   'trees with massive side branches and every root and tip choice; masses from 1e-5 to 1e4',
          'thorough': 'chains of 3 with every type, one origin pattern each and all 6^4 inertial patterns; chains of 4 with all masks'}
ASSUME = ['the inertia of a body is the 6x6 matrix [[I, m hat(c)], [-m hat(c), m 1]] about the origin and in the orientation of the first link of the body on the chain (angular part first)',
          'links of mass up to 1e-6 count as massless', 'side branches fixed to the chain are not part of it', 'the inertia element, when given, is a symmetric matrix about the center of mass']
INE = [(1., .1, -.05, 2., .2, 2.5), (.3, 0, 0, .2, 0, .4), (5., -.7, .3, 6., 1.1, 4.), (1e-6, 1e-7, 0, 2e-6, -3e-7, 2.5e-6), (3e4, 1e2, -20., 2e4, 5., 4e4)]
COM = [(.1, -.2, .3), (0, 0, .5), (-2., 1e-3, .7), (1e-4, 2e-5, -3e-4), (0, -3., 1.)]
ROT = [(.3, -.8, 1.9), (0, 0, PI / 2), (-2., .4, -1.), (1e-4, 0, -2e-4), (PI, 0, 0)]
MASS = [1.5, .02, 12., 1e-5, 1e4]
# inertial elements: None, or (mass?, xyz?, rpy?, inertia?)
KIND = [None, (0, 1, 1, 1), (1, 0, 0, 1), (1, 1, 0, 1), (1, 0, 1, 1), (1, 1, 1, 1), (1, 1, 1, 0), (2, 1, 1, 1)]


def inertial(k, n):
    """dict(m, c, R, I) or None, and its XML."""
    s = KIND[k]
    if s is None:
        return None, ''
    n = n + 3 * (s[0] == 2)
    m = MASS[n % 5] if s[0] else 0.
    c = COM[(2 * n + 1) % 5] if s[1] else None
    r = ROT[(3 * n + 2) % 5] if s[2] else None
    I = INE[n % 5] if s[3] else None
    x = '<inertial>'
    if c is not None or r is not None:
        x += '<origin' + (' xyz="%s"' % num(c) if c is not None else '') + (' rpy="%s"' % num(r) if r is not None else '') + '/>'
    x += '<mass value="%r"/>' % m
    if I is not None:
        x += '<inertia ' + ' '.join('%s="%r"' % (a, float(v)) for a, v in zip(('ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz'), I)) + '/>'
    return dict(m=m, c=c or (0., 0, 0), r=r or (0., 0, 0), I=I or (0.,) * 6), x + '</inertial>'


def rpy(r):
    return ref.rotm(np.array((0., 0, 1)), r[2]) @ ref.rotm(np.array((0., 1, 0)), r[1]) @ ref.rotm(np.array((1., 0, 0)), r[0])


def pseudo(d):
    """4x4 second moment matrix of a link in its own frame."""
    a, b, c, e, f, g = d['I']
    R = rpy(d['r'])
    I = np.array([[a, b, c], [b, e, f], [c, f, g]])
    J = np.zeros((4, 4))
    J[:3, :3] = np.trace(I) / 2 * np.eye(3) - I
    J[3, 3] = d['m']
    T = ref.hom(R, d['c'])
    return T @ J @ T.T


def spatial(J):
    S, h, m = J[:3, :3], J[:3, 3], J[3, 3]
    hh = np.array([[0, -h[2], h[1]], [h[2], 0, -h[0]], [-h[1], h[0], 0]])
    return np.block([[np.trace(S) * np.eye(3) - S, hh], [-hh, m * np.eye(3)]])


def expect(m, root, p):
    """List of spatial inertias of the bodies of the chain p, or None."""
    bodies, T, l = [np.zeros((4, 4))], np.eye(4), root
    for j in [None] + p:
        if j is not None:
            l = j['child']
            if j['t'] == 'f':
                o = j['o'] or (None, None)
                T = T @ ref.hom(rpy(o[1] or (0, 0, 0)), o[0] or (0, 0, 0))
            else:
                T = np.eye(4)
                bodies.append(np.zeros((4, 4)))
        d = inertial(*m['inr'][l])[0]
        if d is not None and d['m'] > 1e-6:
            bodies[-1] = bodies[-1] + T @ pseudo(d) @ T.T
    if any(b[3, 3] == 0 for b in bodies):
        return None
    return [spatial(b) for b in bodies]


def xml(m):
    out = ['<link name="%s">%s</link>' % (l, inertial(*m['inr'][l])[1]) for l in m['links']]
    for j in m['joints']:
        o = j['o']
        s = '<joint name="%s" type="%s"><parent link="%s"/><child link="%s"/>' % (j['name'], TY[j['t']], j['parent'], j['child'])
        if o is not None:
            s += '<origin' + (' xyz="%s"' % num(o[0]) if o[0] is not None else '') + (' rpy="%s"' % num(o[1]) if o[1] is not None else '') + '/>'
        if j['t'] != 'f':
            s += '<axis xyz="0 0 1"/><limit lower="-1" upper="2" effort="3" velocity="4"/>'
        out.append(s + '</joint>')
    return '<robot name="gen">' + '\n'.join(out) + '</robot>'


def k_chain(p):
    from general_robotics_toolbox import urdf as u
    m, root, tip = p['m'], p.get('root'), p.get('tip')
    x = xml(m)
    r = u.robot_from_xml_string(x, root, tip)
    ch = path(m, root or m['links'][0], tip or m['links'][-1])
    E = expect(m, root or m['links'][0], ch)
    tick()
    if E is None:
        need(r.M is None, 'inertias %s although a body has no mass: %s', r.M, x)
        note('absent')
        return
    need(r.M is not None and len(r.M) == len(E), 'inertias %s, expected %d of them: %s', r.M, len(E), x)
    note('present')
    for k, (A, B) in enumerate(zip(r.M, E)):
        A = np.asarray(A, dtype=float)
        need(A.shape == (6, 6), 'inertia of body %d has shape %s', k, A.shape)
        for s, t in itertools.product((slice(0, 3), slice(3, 6)), repeat=2):
            need(np.all(np.isfinite(A)) and np.max(np.abs(A[s, t] - B[s, t])) <= 1e-9 * (1e-9 + np.max(np.abs(B[s, t])) + (B[5, 5] if s != t else 0)), 'inertia of body %d is\n%s\nexpected\n%s\nfor %s', k, A, B, x)


KINDS = dict(chain=k_chain)


def chain(ts, os_, ks, n):
    links = ['b%d' % (k * 5 % 7) for k in range(len(ts) + 1)]
    return dict(links=links, inr={l: [ks[k], n + k] for k, l in enumerate(links)},
                joints=[dict(parent=links[k], child=links[k + 1], t=ts[k], o=origin(os_[k], k + n), name='j%d' % k) for k in range(len(ts))])


def mechanisms(tier):
    n = 0
    for k in (1, 2):
        for ts in itertools.product('frp', repeat=k):
            if set(ts) == {'f'}:
                continue
            for o in itertools.product(range(4), repeat=k):
                for ks in itertools.product(range(8), repeat=k + 1):
                    n += 1
                    yield dict(m=chain(ts, o, ks, n % 10))
    pats = list(itertools.product((0, 2, 3, 4, 5, 7), repeat=4))
    for ts in itertools.product('frp', repeat=3):
        if set(ts) == {'f'}:
            continue
        for o in itertools.product(range(4), repeat=3):
            for i in range(4):
                n += 1
                yield dict(m=chain(ts, o, pats[n * 7 % len(pats)], n % 10))
            if o == (3, 3, 3) or o == (1, 2, 3):
                for ks in itertools.product((0, 5), repeat=4) if tier == 'quick' else pats:
                    n += 1
                    yield dict(m=chain(ts, o, ks, n % 10))
    for k in (4, 5, 6):
        for ts in itertools.product('frp' if k < 6 else 'fr', repeat=k):
            if set(ts) == {'f'}:
                continue
            for mask in range(1 << (k + 1)) if tier != 'quick' and k == 4 else [(1 << (k + 1)) - 1, n * 5 % (1 << (k + 1)), (n * 11 | 1) % (1 << (k + 1))]:
                n += 1
                yield dict(m=chain(ts, [3 - (n + i) % 3 for i in range(k)], [(3, 5, 4)[(i + n) % 3] if mask >> i & 1 else (0, 1)[(n + i) % 2] for i in range(k + 1)], n % 10))
    # side branches and every root and tip on a path with a moving joint
    for pa in itertools.product(range(1), range(2), range(3), range(4)):
        for ts in itertools.product('fr', repeat=4):
            n += 1
            links = ['w', 'x', 'y', 'z', 'u']
            m = dict(links=links, inr={l: [(5, 3, 5, 0, 4, 5, 2)[(k + n) % 7], n % 5 + k] for k, l in enumerate(links)},
                     joints=[dict(parent=links[q], child=links[k + 1], t=t, o=origin(3 - (n + k) % 3, k), name='q%d' % k) for k, (q, t) in enumerate(zip(pa, ts))])
            for root in links:
                for tip in links:
                    ch = path(m, root, tip)
                    if ch and any(j['t'] != 'f' for j in ch):
                        yield dict(m=m, root=root, tip=tip)


def shards(tier):
    return [[tier, i] for i in range(32)]


def cases(sh):
    for n, p in enumerate(mechanisms(sh[0])):
        if n % 32 == sh[1]:
            yield 'chain', p
