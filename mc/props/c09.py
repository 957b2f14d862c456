"""Spherical wrist inverse kinematics against an independent solver, over joint and Cartesian lattices."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots, ikref
from mc.robots import mk, aux, X, Y, Z, NX, NY, NZ, O
from mc.core import need, tick, note, finding, Bad
from mc.ikcheck import judge, ask, with_limits, SHAPES, sound

ID = 'C09'
PI = math.pi
BOUNDS = {'quick': '14 robots (both first axis signs, elbow axes equal/opposite, wrists along x or z and mixed, all sign patterns met in practice, shoulder/elbow/y offsets present or absent, wrist offsets along and against joints 4 and 6, '
                   'first axis through the origin or not); every pose from the generic joint lattice 3^6 with limit shapes none and 2 of 8 in rotation, every pose from {0,pi/2,pi}^6 '
                   '(singular ones included), all 8 base/flange/tool patterns on 2^6 poses (on the lattice these and translations only, rotations only, quarter/half turns, small corrections in rotation), poses .03 to .002 from wrist and shoulder singularities and from zero and half turns, a 5^3 Cartesian grid x 6 orientations (reachable, unreachable, inside the inner bounds), '
                   'and 24 poses on both sides of every reach boundary; refusal of wrist link vectors off their axes',
          'thorough': 'all 9 limit shapes on every lattice pose, {0,pi/2,-pi/2,pi}^6, 24 orientations'}
ASSUME = ['completeness is decided for configurations whose singularity margin exceeds 1e-3 and that are not within 1e-6 of a joint limit',
          'at singular poses with joint limits narrower than a turn only soundness is required (see the recorded finding)',
          'supported layout: joint 1 along z, joints 2 and 3 along y, wrist axes meeting in a point, wrist offsets along joints 4 and 6']


def arm(h1, h23, w, a1=0.1, d=0., L2=.5, L2x=0., e=0.07, L3=.6, ez=0., P0=(0, 0, .3), d6=.09, P4=None, P5=None, y2=0., y3=0.):
    """w: axes of joints 4-6; the forearm leaves along z or x (ez: bend)."""
    return mk([(0, 0, h1), (0, h23[0], 0), (0, h23[1], 0)] + list(w),
              [P0, (a1, d, .05), (L2x, y2, L2), (L3 * (1 - ez), y3, e + L3 * ez), P4 or O, P5 or O, tuple(d6 * x for x in w[2])])


ROBOTS = {
    'puma': robots.puma,
    'abb': robots.abb,
    'fanuc': lambda: arm(1, (1, -1), [NX, NY, NX], L3=.7),
    'zwrist': lambda: arm(1, (1, 1), [Z, Y, Z], ez=1., e=0., a1=.15, L2x=.03),
    'zneg': lambda: arm(-1, (-1, -1), [NZ, Y, NZ], ez=.8, a1=0., d=.12),
    'yoff': lambda: arm(1, (1, 1), [X, Y, X], y2=-.15, y3=.06, d=.05),
    'p0off': lambda: arm(1, (1, -1), [X, NY, NX], P0=(.2, -.1, .4)),
    'p4p5': lambda: arm(1, (1, 1), [X, Y, X], P4=(.25, 0, 0), P5=(-.06, 0, 0), d6=.1),
    'p4n': lambda: arm(1, (1, -1), [NX, NY, X], P4=(.2, 0, 0), P5=(.08, 0, 0)),
    'p5z': lambda: arm(1, (1, 1), [Z, Y, NZ], ez=1., e=0., P4=(0, 0, -.12), P5=(0, 0, .07)),
    'hneg1': lambda: arm(-1, (1, 1), [X, NY, X], a1=.2, y2=.1),
    'mixw': lambda: arm(1, (-1, 1), [NZ, NY, X], ez=1, P4=(0, 0, -.15), d=-.08),
    'plain': lambda: arm(1, (1, 1), [Z, Y, Z], a1=0., L2=.5, L3=.4, ez=1., e=0., d6=0.),
    'zxw': lambda: arm(1, (1, 1), [X, Z, X], L2x=.1),
}


def k_pose(p):
    spec0, q = aux(ROBOTS[p['r']](), p['aux']), p['q']
    T = ref.fk(spec0, q)
    for sh in p['shapes']:
        spec = with_limits(spec0, sh, q)
        what = '%s aux %d limits %s from %s' % (p['r'], p['aux'], sh, q)
        sols = ask(rox.robot6_sphericalwrist_invkin, spec, T)
        judge(ikref.sw, spec, T, sols, what, True)


def k_cart(p):
    spec = aux(ROBOTS[p['r']](), p['aux'])
    spec.pop('lower', None)
    spec.pop('upper', None)
    T = np.array(p['T'])
    what = '%s aux %d pose %s' % (p['r'], p['aux'], p['T'])
    judge(ikref.sw, spec, T, ask(rox.robot6_sphericalwrist_invkin, spec, T), what, False)


def k_edge(p):
    """Wrist centre moved across a reach boundary found by bisection along a line."""
    spec = ROBOTS[p['r']]()
    spec.pop('lower', None)
    spec.pop('upper', None)
    R = ref.rotm(ref.unit((1, -2, 1)), p['th'])
    d, a = np.array(p['dir']), p['a']
    has = lambda x: len(ikref.sw(spec, ref.hom(R, a + x * d))[0]) > 0
    xs = [0.02 * i + .013 for i in range(150)]
    fs = [has(x) for x in xs]
    for x0, x1, f0, f1 in zip(xs, xs[1:], fs, fs[1:]):
        if f0 == f1:
            continue
        for _ in range(60):
            m = (x0 + x1) / 2
            if has(m) == f0:
                x0 = m
            else:
                x1 = m
        for e in (-.03, -2e-3, 2e-3, .03):
            T = ref.hom(R, a + (x0 + e) * d)
            judge(ikref.sw, spec, T, ask(rox.robot6_sphericalwrist_invkin, spec, T), '%s near the reach boundary, pose %s' % (p['r'], T.tolist()), False)
            note('boundary')


def k_known(p):
    """Recorded finding: a singular pose whose limits exclude the one representative that the solver picks."""
    spec = with_limits(ROBOTS['abb'](), 'none', [0] * 6)
    q = [.3, -.2, .4, 1.0, 0.0, -.5]
    T = ref.fk(spec, q)
    spec['lower'], spec['upper'] = [-3] * 3 + [.9, -1, -1.5], [3] * 3 + [1.1, 1, 1.5]
    sols = ask(rox.robot6_sphericalwrist_invkin, spec, T)
    sound(spec, T, sols, 'abb')
    if len(sols) == 0:
        finding('wrist-singular-with-narrow-limits', 'pose of the ABB robot at q=%s with joint 4 limited to 0.9..1.1 is reachable but an empty list is returned' % q)


def dims():
    """Robots with one small dimension (.03 to 3e-6), and robots in other units."""
    out = {}
    for m, e in enumerate((.03, 4e-3, 3e-4, 3e-5, 3e-6)):
        for k, v in enumerate((e, -e)):
            for n, kw in enumerate([dict(a1=v), dict(d=v), dict(L2x=v), dict(e=v), dict(y2=v), dict(y3=v), dict(P4=(v, 0, 0)), dict(P5=(v, 0, 0)), dict(P0=(v, -v, v)), dict(d6=v), dict(P4=(v, 0, 0), P5=(-2 * v, 0, 0)),
                                    dict(d=v, y2=-v), dict(e=0., ez=1. - abs(v))]):
                kw = dict(dict(y2=-.05) if n % 2 else {}, **kw)
                out['small %g %d' % (v, n)] = (1 - 2 * ((m + n) % 2), (1, (-1) ** (n + k)), [X, (NY, Y)[(m + k) % 2], X], kw)
    return out


def dim_robot(name):
    if name.startswith('unit'):
        _, u, r = name.split()
        s = ROBOTS[r]()
        s.pop('lower', None), s.pop('upper', None)
        return dict(s, P=[[float(u) * x for x in v] for v in s['P']])
    h1, h23, w, kw = dims()[name]
    return arm(h1, h23, w, **kw)


def k_dim(p):
    spec0 = aux(dim_robot(p['n']), p['aux'])
    for q in itertools.product(*[values(j)[:2] for j in range(6)]) if p['full'] else itertools.product([-1.3, .4], [.3], [.6, -1.1], [.8], [.9, -.7], [2.]):
        q = list(q)
        T = ref.fk(spec0, q)
        spec = with_limits(spec0, p['sh'], q)
        judge(ikref.sw, spec, T, ask(rox.robot6_sphericalwrist_invkin, spec, T), 'robot %s aux %d limits %s from %s' % (p['n'], p['aux'], p['sh'], q), True)


def k_refuse(p):
    """A wrist link vector that keeps the wrist axes from meeting in a point."""
    s = ROBOTS[p['r']]()
    T = ref.fk(s, p['q'])
    H = [np.array(h, dtype=float) for h in s['H']]
    for i, (a, b) in ((4, (H[3], H[4])), (5, (H[4], H[5]))):
        n = ref.unit(ref.cross(a, b))
        for d in (.3, -.1, .02, -3e-3, 4e-4, -1e-3):
            for c in (0., .15, -.08):
                P = [np.array(x, dtype=float) for x in s['P']]
                P[i] = d * n + c * (a if i == 4 else b)
                bad = dict(s, P=[x.tolist() for x in P])
                try:
                    out = ask(rox.robot6_sphericalwrist_invkin, bad, T)
                except Bad:
                    raise
                except Exception:
                    note('refused')
                    continue
                raise Bad('%s with link vector %d off the wrist by %g is not refused, %d solutions' % (p['r'], i, d, len(out)))


KINDS = dict(refuse=k_refuse, dim=k_dim, pose=k_pose, cart=k_cart, edge=k_edge, known=k_known)


def values(i):
    return [-2.17 + .1 * i, .41 - .05 * i, 1.73 + .07 * i]


def shards(tier):
    out = [['known', tier, 'abb', 0]] + [['dim', tier, 'abb', i] for i in range(6)]
    for r in ROBOTS:
        out += [[w, tier, r, i] for w in ('gen', 'sing') for i in range(3)]
        out += [['aux', tier, r, 0], ['cart', tier, r, 0], ['cart', tier, r, 1], ['edge', tier, r, 0], ['near', tier, r, 0]]
    return out


def cases(sh):
    what, tier, r, i = sh
    n = list(ROBOTS).index(r)
    if what == 'known':
        yield 'known', 0
        for r in ROBOTS:
            for q in ([.3, -.2, .4, 1.0, .7, -.5], [-2., .5, -.9, -1.2, -1.1, 2.2]):
                yield 'refuse', dict(r=r, q=q)
    elif what == 'gen':
        for m, q in enumerate(itertools.product(*[[values(0)[i]]] + [values(j) for j in range(1, 6)])):
            o = SHAPES[1:]
            shapes = ['none', o[m % 8], o[(m // 8 + 3 + m) % 8]] if tier == 'quick' else SHAPES
            yield 'pose', dict(r=r, aux=(n + m + m // 8) % 88, q=list(q), shapes=shapes)
    elif what == 'sing':
        al = (0, PI / 2, PI) if tier == 'quick' else (0, PI / 2, -PI / 2, PI)
        for m, q in enumerate(itertools.product(al, repeat=6)):
            if m % 3 == i:
                yield 'pose', dict(r=r, aux=0 if m % 2 else n % 8, q=list(q), shapes=['none'] if m % 4 else ['none', 'wide'])
    elif what == 'dim':
        for m, d in enumerate(list(dims()) + ['unit %g %s' % (u, r) for u in (1000., 39.37, .01) for r in ROBOTS]):
            if m % 6 == i:
                yield 'dim', dict(n=d, aux=0, sh='none', full=tier != 'quick')
                yield 'dim', dict(n=d, aux=0 if d.startswith('unit') else m % 8, sh=SHAPES[1 + m % 8], full=tier != 'quick')
    elif what == 'aux':
        for q in itertools.product(*[values(j)[:2] for j in range(6)]):
            for b in range(8 if tier == 'quick' else 32):
                yield 'pose', dict(r=r, aux=b, q=list(q), shapes=['none'])
    elif what == 'near':
        # small distances from the wrist, shoulder and zero configurations
        for e in (.03, .01, 4e-3, 2e-3):
            for s in (1, -1):
                for q in ([.3, -.2, .4, .5, 0, -.7], [-1.1, .5, -.9, 1.4, 0, 2.], [2.4, -.7, .6, -2., PI, .2], [.1, .9, -.2, 3., PI, -1.]):
                    q = list(q)
                    q[4] += s * e
                    yield 'pose', dict(r=r, aux=n % 8, q=q, shapes=['none', 'wide'])
                for k in range(6):
                    q = [s * e * (j == k) + (j != k) * x for j, x in enumerate([.4, -.3, .9, .6, 1.1, -.8])]
                    yield 'pose', dict(r=r, aux=(n + k) % 8, q=q, shapes=['none', 'wide'])
                    q[k] += (PI if s < 0 else -PI)
                    yield 'pose', dict(r=r, aux=(n + k) % 8, q=q, shapes=['none', 'wide'])
        S = ROBOTS[r]()
        L = sum(np.linalg.norm(x) for x in S['P'][1:6])
        W = ref.rotm(ref.unit((1, 2, 3)), .3)
        for rad in (1.0, 3e-3, .01, .03):
            for al in (.2, 1.9, -2.6):
                for z in (.3, .6):
                    a = np.array([rad * math.cos(al), rad * math.sin(al), z * L]) + np.array(S['P'][0]) + W @ np.array(S['P'][6])
                    if rad < 1:
                        yield 'cart', dict(r=r, aux=0, T=ref.hom(W, a).tolist())
    elif what == 'edge':
        for d in ((1, 0, 0), (0, .6, .8), (-.6, .8, 0), (0, 0, 1)):
            for th in (0, 1.0):
                for a in ((0, 0, .4), (.1, .2, .2)):
                    yield 'edge', dict(r=r, th=th, dir=d, a=a)
    else:
        S = ROBOTS[r]()
        L = sum(np.linalg.norm(x) for x in S['P'][1:6])
        G = ref.cube_group()
        G = G[i * 12:i * 12 + 12] if tier != 'quick' else G[i * 12:i * 12 + 12:4]
        W = ref.rotm(ref.unit((1, 2, 3)), .3)
        for x in itertools.product((-1.1, -.5, .02, .4, .9), repeat=3):
            for M in G:
                yield 'cart', dict(r=r, aux=n % 8, T=ref.hom(W @ M, [a * L for a in x]).tolist())
