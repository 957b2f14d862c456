"""Changes of description: words of length up to 2 or 3 over a set of generators, each word applied to a robot, a pose and a joint vector; the library's answers have to follow."""
import copy, itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots
from mc.core import need, tick, note, state
from mc.props import c09, c10

ID = 'C27'
PI = math.pi
BOUNDS = {'quick': 'all words of length <=2 over up to 45 generators (length unit x 1e-3, 25.4, 1e3; reversal of a joint; another zero of a joint by 2 angles, for generic robots also by several turns or 150 to 200 lengths; joint origin moved along its axis; another world frame; another tool frame; offsets moved between '
                   'first link and base, last link and flange, flange and tool) for the 14 spherical-wrist and the Universal robots of C09 and C10 and 5 generic robots of 2 to 7 joints, with 3 limit shapes and 2 auxiliary patterns in rotation: pose, Jacobian, '
                   'inverse kinematics with and without previous position, equivalent configurations; iterative search for single changes and every third pair',
          'thorough': 'all words of length <=3 '}
ASSUME = ['poses away from singularities', 'iterative searches that stay near their start; iterative inverse kinematics is compared for the changes that keep its error measure (all but unit and tool frame)', 'order of solutions is compared where distances differ by more than 1e-5']

W = [robots._tr((2, -1, 2), 1.3, (.4, -.3, .2)), robots._tr((0, 0, 1), PI / 2, (1., 0, 0)), robots._tr((1, 2, -1), .01, (0, 0, 0)), robots._tr((0, 0, 1), 0., (-7., 4., .002))]
TL = [robots._tr((-1, 3, 1), -.9, (.05, .12, -.08)), robots._tr((1, 0, 0), PI, (0, 0, .1)), robots._tr((-1, 2, 2), .004, (0, 0, 0))]


class D(object):
    """Description: robot, pose, joint map q' = s q + b, Jacobian map J' = X J diag(1/s)"""

    def __init__(self, spec, T):
        n = len(spec['type'])
        self.n, self.H, self.P, self.type = n, np.array(spec['H'], dtype=float), np.array(spec['P'], dtype=float), list(spec['type'])
        self.base, self.flange, self.tool = [ref.aux_T(spec, x).copy() for x in ('base', 'flange', 'tool')]
        self.has = [spec.get(x) is not None for x in ('base', 'flange', 'tool')]
        self.lo, self.up = (np.array(spec['lower'], dtype=float), np.array(spec['upper'], dtype=float)) if spec.get('lower') is not None else (None, None)
        self.T, self.s, self.b, self.X = T.copy(), np.ones(n), np.zeros(n), np.eye(6)

    def joint(self, i, s, b):
        self.s[i], self.b[i] = s * self.s[i], s * self.b[i] + b
        if self.lo is not None:
            l, u = s * self.lo[i] + b, s * self.up[i] + b
            self.lo[i], self.up[i] = min(l, u), max(l, u)

    def zero(self, i, a):
        if self.type[i]:
            self.P[i + 1] = self.P[i + 1] + a * self.H[i]
        else:
            R = ref.rotm(self.H[i], a)
            self.P[i + 1:] = self.P[i + 1:] @ R.T
            self.H[i + 1:] = self.H[i + 1:] @ R.T
            self.flange = ref.hom(R, (0, 0, 0)) @ self.flange
            self.has[1] = True
        self.joint(i, 1., -a)

    def apply(self, g):
        k, a = g[0], g[1:]
        if k == 'unit':
            c = a[0]
            for M in (self.base, self.flange, self.tool, self.T):
                M[:3, 3] *= c
            self.P *= c
            for i, t in enumerate(self.type):
                if t:
                    self.joint(i, c, 0.)
            self.X = np.diag([1., 1, 1, c, c, c]) @ self.X
        elif k == 'flip':
            for i in a:
                self.H[i] = -self.H[i]
                self.joint(i, -1., 0.)
        elif k == 'zero':
            self.zero(*a)
        elif k == 'zz':
            self.zero(a[0], a[1])
            self.zero(a[0] + 1, -a[1])
        elif k == 'slide':
            i, d = a
            self.P[i] = self.P[i] + d * self.H[i]
            self.P[i + 1] = self.P[i + 1] - d * self.H[i]
        elif k == 'world':
            M = ref.hom(*W[a[0]])
            self.base, self.T, self.has[0] = M @ self.base, M @ self.T, True
            self.X = np.kron(np.eye(2), M[:3, :3]) @ self.X
        elif k == 'tool':
            M = ref.hom(*TL[a[0]])
            d = self.T[:3, :3] @ M[:3, 3]
            self.tool, self.T, self.has[2] = self.tool @ M, self.T @ M, True
            Y = np.eye(6)
            Y[3:, :3] = -np.array([[0, -d[2], d[1]], [d[2], 0, -d[0]], [-d[1], d[0], 0]])
            self.X = Y @ self.X
        elif k == 'split':
            M = ref.hom(*TL[0])
            self.flange, self.tool, self.has[1], self.has[2] = self.flange @ M, ref.hinv(M) @ self.tool, True, True
        elif k == 'base0':
            self.base, self.has[0] = self.base @ ref.hom(np.eye(3), self.P[0]), True
            self.P[0] = 0
        elif k == 'tip':
            self.flange, self.has[1] = ref.hom(np.eye(3), self.P[-1]) @ self.flange, True
            self.P[-1] = 0

    def spec(self):
        s = dict(H=self.H.tolist(), P=self.P.tolist(), type=list(self.type))
        for n, M, h in zip(('base', 'flange', 'tool'), (self.base, self.flange, self.tool), self.has):
            if h:
                s[n] = [M[:3, :3].tolist(), M[:3, 3].tolist()]
        if self.lo is not None:
            s['lower'], s['upper'] = self.lo.tolist(), self.up.tolist()
        return s

    def q(self, q):
        return self.s * np.asarray(q, dtype=float) + self.b


UNITS = [['unit', 1e-3], ['unit', 25.4], ['unit', 1e3]]
FRAMES = [['world', i] for i in range(4)] + [['tool', i] for i in range(3)] + [['split'], ['base0'], ['tip']]
A2 = (.7, -2.1)


def gens(kind, n=6, types=None):
    if kind == 'sw':
        return (UNITS + [['flip', i] for i in range(6)] + [['zero', i, a] for i in range(1, 6) for a in A2] + [['zero', 0, PI]] + [['slide', 0, .2], ['slide', 1, -.15], ['slide', 2, .1], ['slide', 3, .12], ['slide', 3, -.3], ['slide', 5, .07]] + FRAMES)
    if kind == 'ur':
        return UNITS + [['flip', 1, 2, 3, 5]] + [['zz', i, a] for i in (1, 2) for a in A2] + [['zero', 5, a] for a in A2] + [['zero', 0, PI]] + [['slide', i, .1 * (-1) ** i] for i in (0, 1, 2, 3, 5)] + FRAMES
    return UNITS + [['flip', i] for i in range(n)] + [['zero', i, a] for i in range(n) for a in (A2[i % 2], (200., -150.)[i % 2] if types[i] else (14., -9.)[i % 2])] + [['slide', i, .2] for i in range(n)] + FRAMES


GENERIC = {'g2': (2, [0, 0], 0), 'g3': (3, [0, 1, 0], 1), 'g4': (4, [1, 0, 0, 1], 2), 'g5': (5, [0, 0, 1, 0, 0], 3), 'g7': (7, [0] * 7, 1)}
Q = [[.4, -.7, .5, 1.1, -.8, .6, .3], [-2.2, .45, -.9, -2.6, 1.2, 2.4, -1.], [2.7, -1.3, 1.2, .35, 2.1, -.5, 2.]]
LIM = [None, (-3.6, 3.9), (-2.8, 2.9)]
IK = dict(sw=rox.robot6_sphericalwrist_invkin, ur=rox.ur_invkin)


def the_robot(p):
    if p['kind'] == 'g':
        n, t, s = GENERIC[p['r']]
        spec = robots.generic(n, t, s)
    else:
        spec = copy.deepcopy((c09 if p['kind'] == 'sw' else c10).ROBOTS[p['r']]())
    spec.pop('lower', None), spec.pop('upper', None)
    n = len(spec['type'])
    q = Q[p['q']][:n]
    if p['kind'] != 'g' and p['r'] in ('plain',):
        q = [q[0], q[1], q[2] + .1] + q[3:]
    if LIM[p['lim']]:
        l, u = LIM[p['lim']]
        spec['lower'], spec['upper'] = [min(l - .03 * i, q[i] - .1) for i in range(n)], [max(u + .04 * i, q[i] + .1) for i in range(n)]
    return robots.aux(spec, p['aux']), q


def rotdist(a, b, types):
    d = np.asarray(a, dtype=float) - np.asarray(b, dtype=float)
    return max(abs(x) if t else abs(math.remainder(x, 2 * PI)) for x, t in zip(d, types))


def match(got, want, dist, what, tol):
    need(len(got) == len(want), '%s: %d solutions, expected %d: %s, expected %s', what, len(got), len(want), got, want)
    left = list(got)
    for w in want:
        d = [dist(g, w) for g in left]
        need(min(d) < tol, '%s: no solution near %s: %s', what, w, got)
        left.pop(int(np.argmin(d)))


def answers(p, spec, T, q, last, it):
    """What the library says about a description."""
    r = robots.build(spec)
    types = spec['type']
    out = dict(fk=robots.toH(rox.fwdkin(r, np.array(q))), jac=rox.robotjacobian(r, np.array(q)))
    tick(2)
    if p['kind'] in IK:
        f = IK[p['kind']]
        out['ik'] = f(r, robots.TH(T))
        out['last'] = f(r, robots.TH(T), np.array(last))
        tick(2)
    if 'lower' in spec:
        out['eq'] = rox.equivalent_configurations(r, [np.array(q)])
        out['eql'] = rox.equivalent_configurations(r, [np.array(q)], np.array(last))
        tick(2)
    if it:
        out['iter'] = rox.iterative_invkin(r, robots.TH(T), np.array(it), 60)
        tick()
    return out


def k_word(p):
    spec, q = the_robot(p)
    n, types = len(q), spec['type']
    T = ref.fk(spec, q)
    turns = [0] * n if LIM[p['lim']] else [2 * PI * ((i % 3) - 1) for i in range(n)]
    last = [x + .15 * (-1) ** i * (1 + .1 * i) + (0 if t else k) for i, (x, t, k) in enumerate(zip(q, types, turns))]
    seed = [x + .02 * (-1) ** i * (1 + .1 * i) for i, x in enumerate(q)]
    base = answers(p, spec, T, q, last, seed)
    gs = gens(p['kind'], n, types)
    # paths past a singularity amplify rounding, so that nothing can be compared
    smooth_path = bool(base['iter'][0]) and len(base['iter'][1]) == 1 and rotdist(base['iter'][1][0], q, types) < .01
    if p['kind'] in IK:
        need(any(rotdist(x, q, types) < 1e-6 for x in base['ik']), 'solution %s missing: %s', q, base['ik'])
        note('solutions %d' % len(base['ik']))
    for tail in p['tails']:
        word = [gs[i] for i in p['head'] + tail]
        d = D(spec, T)
        for g in word:
            d.apply(g)
        s2 = d.spec()
        what = '%s aux %d limits %s q %s after %s' % (p['r'], p['aux'], LIM[p['lim']], q, word)
        smooth = not any(g[0] in ('unit', 'tool') for g in word)
        ln = max([1.] + [abs(x) for M in (d.P, d.T) for x in M.flat])
        o = answers(p, s2, d.T, d.q(q), d.q(last), list(d.q(seed)) if smooth and (len(word) < 2 or len(word) < 3 and sum(p['head'] + tail) % 3 == 0) else None)
        state((p['r'], p['aux'], p['lim'], p['q'], word))
        need(np.max(np.abs(o['fk'] - d.T)) < 1e-9 * ln, '%s: pose\n%s\nexpected\n%s', what, o['fk'], d.T)
        need(np.max(np.abs(o['jac'] - d.X @ base['jac'] / d.s)) < 1e-8 * ln, '%s: Jacobian\n%s\nexpected\n%s', what, o['jac'], d.X @ base['jac'] / d.s)
        near = lambda a, b: float(np.max(np.abs((np.asarray(a) - b) / d.s)))
        if 'ik' in o:
            match(o['ik'], [d.q(x) for x in base['ik']], lambda a, b: rotdist(a, b, types), what, 1e-5)
            if d.lo is not None:
                for x in o['ik']:
                    need(np.all(x >= d.lo) and np.all(x <= d.up), '%s: %s outside the limits', what, x)
        for k, ref_q in (('last', last), ('eql', last), ('eq', None)):
            if k in o:
                want = [d.q(x) for x in base[k]]
                match(o[k], want, near, '%s, %s' % (what, k), 1e-5)
                if ref_q is not None and not any(t for t in types):
                    dd = [float(np.linalg.norm(np.asarray(x) - last)) for x in base[k]]
                    if all(b - a > 1e-5 for a, b in zip(dd, dd[1:])):
                        note('order compared')
                        for x, w in zip(o[k], want):
                            need(near(x, w) < 1e-5, '%s, %s: order %s, expected %s', what, k, o[k], want)
        if 'iter' in o and smooth_path:
            note('iterative')
            need(bool(o['iter'][0]) == bool(base['iter'][0]), '%s: iterative search converged %s, expected %s', what, o['iter'][0], base['iter'][0])
            match(o['iter'][1], [d.q(x) for x in base['iter'][1]], near, what + ', iterative search', 1e-6)


KINDS = dict(word=k_word)


DEEP = ['abb', 'p4p5', 'mixw', 'hneg1', 'zxw', 'ur5e', 'ur10_p', 'ur3_w', 'g2', 'g3', 'g4']


def robots_of(kind):
    return sorted(GENERIC) if kind == 'g' else sorted((c09 if kind == 'sw' else c10).ROBOTS)


def shards(tier):
    return [[tier, k, r, j] for k in ('sw', 'ur', 'g') for r in robots_of(k) for j in range(8 if tier == 'quick' else 32)]


def cases(sh):
    tier, kind, r, j = sh
    m = len(gens(kind, *GENERIC[r][:2])) if kind == 'g' else len(gens(kind))
    c = robots_of(kind).index(r)
    heads = [[]] + [[i] for i in range(m)] + ([[a, b] for a in range(m) for b in range(a + 1, m)] if tier != 'quick' and r in DEEP else [])
    for k, h in enumerate(heads):
        if k % (8 if tier == 'quick' else 32) == j:
            yield 'word', dict(kind=kind, r=r, q=(k + c) % 3, lim=(k + c // 3) % 3, aux=(0, 7)[(k // 3 + c) % 2], head=h, tails=([[]] if not h else []) + [[i] for i in range(m)])
