"""Universal Robots inverse kinematics against an independent solver, over joint and Cartesian lattices."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots, ikref
from mc.robots import aux
from mc.core import need, tick, note
from mc.ikcheck import judge, ask, with_limits, SHAPES

ID = 'C10'
PI = math.pi
BOUNDS = {'quick': '7 robots (UR3e, UR5e, UR10 dimensions, both axis orientations, y offset put at the shoulder, elbow or wrist or split, first axis off the origin); every pose from the generic joint lattice '
                   '3^6 with limit shapes none and 2 of 8 in rotation, every pose from {0,pi/2,pi}^6 (singular ones included), all 8 base/flange/tool patterns on 2^6 poses (on the lattice these and translations only, rotations only, quarter/half turns, small corrections in rotation), poses .03 to .002 from wrist and shoulder singularities and from zero and half turns, a 5^3 Cartesian grid x 6 '
                   'orientations (reachable, unreachable, inside the inner cylinder), poses on both sides of every reach boundary, 60 robots of other layouts',
          'thorough': 'all 9 limit shapes on every lattice pose, {0,pi/2,-pi/2,pi}^6, 24 orientations'}
ASSUME = ['completeness is decided for configurations whose singularity margin exceeds 1e-3 and that are not within 1e-6 of a joint limit; at wrist-singular poses, where the configurations are not isolated, only soundness',
          'layout: joint axes z,-y,-y,-y,-z,-y or z,y,y,y,-z,y; joint 6 offset along joint 6']
ROBOTS = {
    'ur5e': lambda: robots.ur(*robots.UR5E),
    'ur5e_p': lambda: robots.ur(*robots.UR5E, sg=1),
    'ur3e_split': lambda: robots.ur(*robots.UR3E, split=(2., -1.4, .4)),
    'ur10': lambda: robots.ur(*robots.UR10),
    'ur10_p': lambda: robots.ur(*robots.UR10, sg=1, split=(1., 0, 0)),
    'ur5_off': lambda: off(robots.ur(.2, .4, .4, .11, -.1, .08), (.1, -.2, .3)),
    'ur3_w': lambda: w4(robots.ur(*robots.UR3E, sg=1, split=(0, .5, 0))),
}


def off(s, p):
    s['P'][0] = list(p)
    return s


def w4(s):
    s['P'][4][1] += .07
    s['P'][6] = [0.03, -.02, .05]
    return s


def clean(spec):
    spec.pop('lower', None)
    spec.pop('upper', None)
    return spec


def k_pose(p):
    spec0, q = aux(ROBOTS[p['r']](), p['aux']), p['q']
    T = ref.fk(spec0, q)
    for sh in p['shapes']:
        spec = with_limits(spec0, sh, q)
        sols = ask(rox.ur_invkin, spec, T)
        judge(ikref.ur, spec, T, sols, '%s aux %d limits %s from %s' % (p['r'], p['aux'], sh, q), False)


def k_cart(p):
    spec = clean(aux(ROBOTS[p['r']](), p['aux']))
    T = np.array(p['T'])
    judge(ikref.ur, spec, T, ask(rox.ur_invkin, spec, T), '%s aux %d pose %s' % (p['r'], p['aux'], p['T']), False)


def k_edge(p):
    spec = ROBOTS[p['r']]()
    R = ref.rotm(ref.unit((1, -2, 1)), p['th'])
    d, a = np.array(p['dir']), np.array(p['a'])
    has = lambda x: len(ikref.ur(spec, ref.hom(R, a + x * d))[0])
    xs = [0.02 * i + .013 for i in range(90)]
    fs = [has(x) for x in xs]
    for x0, x1, f0, f1 in zip(xs, xs[1:], fs, fs[1:]):
        if f0 == f1:
            continue
        for _ in range(50):
            m = (x0 + x1) / 2
            if has(m) == f0:
                x0 = m
            else:
                x1 = m
        for e in (-.015, -2e-3, 2e-3, .015):
            T = ref.hom(R, a + (x0 + e) * d)
            judge(ikref.ur, spec, T, ask(rox.ur_invkin, spec, T), '%s near a boundary where branches vanish, pose %s' % (p['r'], T.tolist()), False)
            note('boundary')


def k_layout(p):
    r = robots.build(p['s'])
    T = robots.TH(ref.fk(p['s'], [.1] * len(p['s']['type'])))
    try:
        out = rox.ur_invkin(r, T)
    except Exception:
        tick()
        note('refused')
        return
    need(False, 'a robot with axes %s is accepted: %s', p['s']['H'], out)


def dims():
    """Robots with one small dimension (.03 to 3e-6), and robots in other units."""
    out = {}
    for m, e in enumerate((.03, 4e-3, 3e-4, 3e-5, 3e-6)):
        for k, v in enumerate((e, -e)):
            d = list(robots.UR5E)
            for n in range(7):
                c = list(d)
                if n == 6:
                    c[2] = c[1] + v
                elif n not in (1, 2):
                    c[n] = v
                else:
                    continue
                out['small %g %d' % (v, n)] = (c, (1, -1)[(m + k + n) % 2], None if n % 2 else (.5, .2, .3))
            for n, sp in enumerate([(v / .13, 0, 1 - v / .13), (0, v / .13, 1 - v / .13), (1., v / .13, -v / .13), (v / .13, -v / .13, 1.)]):
                out['split %g %d' % (v, n)] = (d, (1, -1)[(m + k + n) % 2], sp)
            out['p6 %g' % v] = (d, (1, -1)[m % 2], None)
    return out


def dim_robot(name):
    if name.startswith('unit'):
        _, u, r = name.split()
        s = ROBOTS[r]()
        return dict(s, P=[[float(u) * x for x in v] for v in s['P']])
    c, sg, sp = dims()[name]
    s = robots.ur(*c, sg=sg, split=sp)
    if name.startswith('p6'):
        v = float(name.split()[1])
        s['P'][6] = [v, -v, 2 * v]
        s['P'][0] = [-v, 2 * v, .1]
    return s


def k_dim(p):
    spec0 = aux(dim_robot(p['n']), p['aux'])
    for q in itertools.product(*[values(j)[:2] for j in range(6)]) if p['full'] else itertools.product([-1.3, .4], [-.7], [1.6, -1.1], [.8], [.9, -.7], [2.]):
        q = list(q)
        T = ref.fk(spec0, q)
        spec = with_limits(spec0, p['sh'], q)
        judge(ikref.ur, spec, T, ask(rox.ur_invkin, spec, T), 'robot %s aux %d limits %s from %s' % (p['n'], p['aux'], p['sh'], q), False)


KINDS = dict(dim=k_dim, pose=k_pose, cart=k_cart, edge=k_edge, layout=k_layout)


def values(i):
    return [-2.17 + .1 * i, .41 - .05 * i, 1.73 + .07 * i]


def shards(tier):
    out = [['layout', tier, 'ur5e', 0]] + [['dim', tier, 'ur5e', i] for i in range(6)]
    for r in ROBOTS:
        out += [[w, tier, r, i] for w in ('gen', 'sing') for i in range(3)]
        out += [['aux', tier, r, 0], ['cart', tier, r, 0], ['cart', tier, r, 1], ['edge', tier, r, 0], ['near', tier, r, 0]]
    return out


def cases(sh):
    what, tier, r, i = sh
    n = list(ROBOTS).index(r)
    if what == 'gen':
        for m, q in enumerate(itertools.product(*[[values(0)[i]]] + [values(j) for j in range(1, 6)])):
            o = SHAPES[1:]
            shapes = ['none', o[m % 8], o[(m // 8 + 3 + m) % 8]] if tier == 'quick' else SHAPES
            yield 'pose', dict(r=r, aux=(n + m + m // 8) % 88, q=list(q), shapes=shapes)
    elif what == 'sing':
        al = (0, PI / 2, PI) if tier == 'quick' else (0, PI / 2, -PI / 2, PI)
        for m, q in enumerate(itertools.product(al, repeat=6)):
            if m % 3 == i:
                yield 'pose', dict(r=r, aux=0 if m % 2 else n % 8, q=list(q), shapes=['none'] if m % 4 else ['none', 'wide'])
    elif what == 'dim':
        for m, d in enumerate(list(dims()) + ['unit %g %s' % (u, r) for u in (1000., 39.37, .01) for r in ROBOTS]):
            if m % 6 == i:
                yield 'dim', dict(n=d, aux=0, sh='none', full=tier != 'quick')
                yield 'dim', dict(n=d, aux=0 if d.startswith('unit') else m % 8, sh=SHAPES[1 + m % 8], full=tier != 'quick')
    elif what == 'aux':
        for q in itertools.product(*[values(j)[:2] for j in range(6)]):
            for b in range(8 if tier == 'quick' else 32):
                yield 'pose', dict(r=r, aux=b, q=list(q), shapes=['none'])
    elif what == 'near':
        # small distances from the wrist, shoulder and zero configurations
        for e in (.03, .01, 4e-3, 2e-3):
            for s in (1, -1):
                for q in ([.3, -.2, .4, .5, 0, -.7], [-1.1, .5, -.9, 1.4, 0, 2.], [2.4, -.7, .6, -2., PI, .2], [.1, .9, -.2, 3., PI, -1.]):
                    q = list(q)
                    q[4] += s * e
                    yield 'pose', dict(r=r, aux=n % 8, q=q, shapes=['none', 'wide'])
                for k in range(6):
                    q = [s * e * (j == k) + (j != k) * x for j, x in enumerate([.4, -.3, .9, .6, 1.1, -.8])]
                    yield 'pose', dict(r=r, aux=(n + k) % 8, q=q, shapes=['none', 'wide'])
                    q[k] += (PI if s < 0 else -PI)
                    yield 'pose', dict(r=r, aux=(n + k) % 8, q=q, shapes=['none', 'wide'])
        S = ROBOTS[r]()
        L = sum(np.linalg.norm(x) for x in S['P'][1:6])
        W = ref.rotm(ref.unit((1, 2, 3)), .3)
        for rad in (1.0, 3e-3, .01, .03):
            for al in (.2, 1.9, -2.6):
                for z in (.3, .6):
                    a = np.array([rad * math.cos(al), rad * math.sin(al), z * L]) + np.array(S['P'][0]) + W @ np.array(S['P'][6])
                    if rad < 1:
                        yield 'cart', dict(r=r, aux=0, T=ref.hom(W, a).tolist())
    elif what == 'edge':
        for d in ((1, 0, 0), (0, .6, .8), (-.6, .8, 0), (0, 0, 1)):
            for th in (0.2, 1.0):
                for a in ((0, 0, .2), (.1, .2, .1)):
                    yield 'edge', dict(r=r, th=th, dir=d, a=a)
    elif what == 'layout':
        for base in ('ur5e', 'ur5e_p'):
            for j in range(6):
                for h in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (0, .6, .8)):
                    s = ROBOTS[base]()
                    if list(map(float, h)) != s['H'][j]:
                        s['H'][j] = list(map(float, h))
                        yield 'layout', dict(s=s)
            s = ROBOTS[base]()
            yield 'layout', dict(s=dict(s, H=[[-a for a in h] for h in s['H']]))
            yield 'layout', dict(s=dict(s, H=s['H'][:5], P=s['P'][:6], type=[0] * 5))
            yield 'layout', dict(s=dict(s, H=s['H'] + [[1., 0, 0]], P=s['P'] + [[.1, 0, 0]], type=[0] * 7))
        for f in (robots.puma, robots.abb):
            s = f()
            s.pop('lower', None), s.pop('upper', None)
            yield 'layout', dict(s=s)
    else:
        S = ROBOTS[r]()
        L = sum(np.linalg.norm(x) for x in S['P'][1:6])
        G = ref.cube_group()
        G = G[i * 12:i * 12 + 12] if tier != 'quick' else G[i * 12:i * 12 + 12:4]
        W = ref.rotm(ref.unit((1, 2, 3)), .3)
        for x in itertools.product((-1.0, -.45, .02, .35, .8), repeat=3):
            for M in G:
                yield 'cart', dict(r=r, aux=n % 8, T=ref.hom(W @ M, [a * L for a in x]).tolist())
