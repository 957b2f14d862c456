"""Inverse kinematics with a previous position: nearest representatives, order, and continuous tracking over all step histories."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots, ikref
from mc.robots import aux
from mc.core import need, tick, note, state, C
from mc.ikcheck import judge, with_limits, sound, MARGIN
from mc.props import c09, c10

ID = 'C11'
PI = math.pi
BOUNDS = {'quick': '6 robots (3 spherical wrist, 3 UR) x 6 poses x all previous positions of {-4.9,0.3,q+2pi-.2}-like lattices 3^5 (x sixth joint in rotation) and whole-turn multiples up to 5 '
                   'x limit shapes none/wide/asymmetric multi-turn; tracking: all histories of 3 joint steps (+-0.15 on any joint: 1884 per start) for 4 robots and of 2 steps from 2 starts per robot with limits none/+-3pi, all 12 '
                   'straight runs of 48 steps of 0.25 rad (almost two turns) with and without limits and two-joint zigzags',
          'thorough': 'full 3^6 previous positions, 20 poses, histories of 4 steps, 160-step runs'}
ASSUME = ['exact ties (half a turn) between two representatives may be resolved either way', 'nearest means Euclidean distance over all joints',
          'entries at singular poses are checked for soundness, limits and order only']
SOLVE = {'sw': (rox.robot6_sphericalwrist_invkin, ikref.sw), 'ur': (rox.ur_invkin, ikref.ur)}
ROBOTS = [('sw', 'abb'), ('ur', 'ur5e'), ('sw', 'puma'), ('ur', 'ur10_p'), ('sw', 'fanuc'), ('ur', 'ur3e_split')]


def robot(fam, name, a=0):
    s = aux((c09 if fam == 'sw' else c10).ROBOTS[name](), a)
    s.pop('lower', None)
    s.pop('upper', None)
    return s


def nearest(t, last, lo, up):
    """Allowed representatives of t nearest to last; None if ambiguous (limit or tie)."""
    if lo is None:
        lo, up = last - 7, last + 7
    w = ikref.window(t, lo, up, 1e-6)
    if not w:
        return w
    w.sort(key=lambda v: abs(v - last))
    if len(w) > 1 and abs(abs(w[0] - last) - abs(w[1] - last)) < 1e-6:
        return None
    return [w[0]]


def check_order(spec, T, last, sols, what, S, inf):
    last = np.asarray(last, dtype=float)
    d = [float(np.linalg.norm(np.asarray(q, dtype=float) - last)) for q in sols]
    for a, b in zip(d, d[1:]):
        need(a <= b + 1e-9, '%s: distances to the previous position are not increasing: %s', what, d)
    lo, up = spec.get('lower'), spec.get('upper')
    best = None
    for s, m in S:
        if m <= MARGIN:
            continue
        got = [q for q in sols if ikref.same_mod(q, s, 1e-5)]
        reps = [nearest(t, last[j], None if lo is None else lo[j], None if up is None else up[j]) for j, t in enumerate(s)]
        if any(r is None for r in reps) or any(len(r) == 0 for r in reps):
            continue
        rep = [r[0] for r in reps]
        dist = float(np.linalg.norm(np.array(rep) - last))
        best = dist if best is None else min(best, dist)
        for q in got:
            need(np.max(np.abs(np.asarray(q) - rep)) < 1e-5, '%s: entry %s, but nearest to %s within the limits is %s', what, np.asarray(q).tolist(), last.tolist(), rep)
    if best is not None:
        need(len(sols) > 0 and d[0] <= best + 1e-6, '%s: the first entry is at distance %s, but a configuration at %g exists', what, d[:1], best)


def k_near(p):
    fam, name = p['r']
    fn, rs = SOLVE[fam]
    spec0 = robot(fam, name, p['aux'])
    T = ref.fk(spec0, p['q'])
    for lim in p['lims']:
        spec = dict(spec0)
        if lim:
            spec['lower'], spec['upper'] = lim
        r, Tt = robots.build(spec), robots.TH(T)
        cache = {}
        for n, last in enumerate(p['last']):
            f = (np.array, list, tuple)[n % 3](last)
            sols = fn(r, Tt, f)
            tick()
            need(list(f) == list(last), 'the previous position was modified')
            what = '%s aux %d pose of %s limits %s last %s' % (name, p['aux'], p['q'], lim, last)
            S, inf = judge(cached(rs, cache), spec, T, sols, what, False)
            check_order(spec, T, last, sols, what, S, inf)
            note('%d entries' % len(sols))


def cached(rs, cache):
    def f(spec, T):
        k = T.tobytes()
        if k not in cache:
            cache[k] = rs(spec, T)
        return cache[k]
    return f


def step(fam, spec, r, q, last, what):
    fn, rs = SOLVE[fam]
    T = ref.fk(spec, q)
    sols = fn(r, robots.TH(T), last)
    tick()
    S, inf = judge(rs, spec, T, sols, what, False)
    check_order(spec, T, last, sols, what, S, inf)
    mine = [m for s, m in S if ikref.same_mod(q, s, 1e-6)]
    lo, up = spec.get('lower'), spec.get('upper')
    inside = lo is None or all(a + 1e-6 < x < b - 1e-6 for a, x, b in zip(lo, q, up))
    if mine and mine[0] > MARGIN and inside:
        need(len(sols) > 0 and np.linalg.norm(np.asarray(sols[0]) - last) <= np.linalg.norm(np.asarray(q) - last) + 1e-6, '%s: first entry %s jumps away from %s', what, sols[:1], list(last))
        if mine[0] > .23 and np.linalg.norm(np.asarray(q) - last) < .3:
            need(np.max(np.abs(np.asarray(sols[0]) - q)) < 1e-5, '%s: left the joint path: %s instead of %s', what, np.asarray(sols[0]).tolist(), q)
            note('on path')
            return np.asarray(sols[0], dtype=float)
    note('path near a singularity or outside limits')
    return None


def k_hist(p):
    """All continuations of a first step up to a depth; each node uses the answer of its parent as previous position."""
    fam, name = p['r']
    spec = robot(fam, name, p['aux'])
    if p['lim']:
        spec['lower'], spec['upper'] = p['lim']
    r = robots.build(spec)
    h = p['h']

    def rec(q, last, hist, depth):
        for j, s in (p['first'] if not hist else MOVES):
            q2 = list(q)
            q2[j] += s * h
            a = step(fam, spec, r, q2, last, '%s from %s after steps %s' % (name, p['q'], hist + [(j, s)]))
            state([name, [round(x, 6) for x in q2], hist])
            if a is not None and depth > 1:
                rec(q2, a, hist + [(j, s)], depth - 1)
    rec(p['q'], np.array(p['q']), [], p['depth'])


def k_run(p):
    fam, name = p['r']
    spec = robot(fam, name, p['aux'])
    if p['lim']:
        spec['lower'], spec['upper'] = p['lim']
    r = robots.build(spec)
    q, last = list(p['q']), np.array(p['q'])
    for n, (j, s) in enumerate(p['steps']):
        q[j] += s
        a = step(fam, spec, r, q, last, '%s run from %s step %d of %s' % (name, p['q'], n, p['steps'][:2]))
        # past a singularity the run goes on from the true position
        last = a if a is not None else np.array(q)


def k_none(p):
    fam, name = p['r']
    fn, rs = SOLVE[fam]
    spec = robot(fam, name)
    if p['lim']:
        spec['lower'], spec['upper'] = p['lim']
    T = ref.fk(spec, p['q'])
    if p['far']:
        T[:3, 3] *= 50
    sols = fn(robots.build(spec), robots.TH(T), p['last'])
    tick()
    need(isinstance(sols, (list, tuple, np.ndarray)) and len(sols) == 0, 'unreachable pose with a previous position gives %s', sols)


KINDS = dict(near=k_near, hist=k_hist, run=k_run, none=k_none)
MOVES = [(j, s) for j in range(6) for s in (1, -1)]
STARTS = {'sw': [[.2, .3, -.4, .7, .9, -.5], [2.9, -.6, .5, -3.0, -1.1, 3.05]], 'ur': [[.2, -1.3, 1.4, .7, .9, -.5], [2.9, -.8, -1.2, -3.0, -1.1, 3.05]]}
W3 = ([-3 * PI - .2] * 6, [3 * PI + .1] * 6)


def poses(fam, n):
    out = []
    for i in range(n):
        out.append([math.sin(1.7 * i + j * 2.3 + .4) * (2.9, 1.2, 1.5, 3.0, 1.9, 3.0)[j] + (0, 0, .4, 0, .1, 0)[j] for j in range(6)])
    return out


def shards(tier):
    np_ = 6 if tier == 'quick' else 20
    out = [['near', tier, i, k] for i in range(len(ROBOTS)) for k in range(np_)]
    out += [['hist', tier, i, st, m] for i in range(len(ROBOTS)) for st in range(2) for m in range(12)]
    out += [['run', tier, i, st] for i in range(len(ROBOTS)) for st in range(2)] + [['none', tier]]
    return out


def cases(sh):
    what, tier = sh[0], sh[1]
    if what == 'near':
        rb = ROBOTS[sh[2]]
        q = poses(rb[0], 20)[sh[3]]
        asym = ([-PI - .6 * j - .3 for j in range(6)], [5 * PI - .8 * j for j in range(6)])
        lims = [None, ([-2 * PI - .1] * 6, [2 * PI + .2] * 6), asym]
        alph = [(-4.9 - .1 * j, .3, q[j] + 2 * PI - .2) for j in range(6)]
        lasts = []
        for m, l in enumerate(itertools.product(*alph[:5])):
            if tier == 'quick':
                lasts.append(list(l) + [alph[5][m % 3]])
            else:
                lasts += [list(l) + [x] for x in alph[5]]
        for k in (1, -1, 2, -2, 3, 5, -5):
            lasts.append([x + 2 * PI * k + .05 for x in q])
            for j in range(6):
                l = list(q)
                l[j] += 2 * PI * k - .1
                lasts.append(l)
                l = list(q)
                l[j] += (PI - .02) * (1 if k > 0 else -1) * abs(k)
                lasts.append(l)
        if tier != 'quick' or sh[3] % 4 == 0:
            wide = [[x + 2 * PI * k * (1, -1)[j % 2 * m] + .05 for j, x in enumerate(q)] for k in (3, -3, 4, -4) for m in (0, 1)]
            yield 'near', dict(r=rb, aux=(sh[3] * 3) % 8, q=q, lims=[([-30.] * 6, [30.] * 6)], last=wide)
        for i in range(0, len(lasts), 20):
            yield 'near', dict(r=rb, aux=(sh[3] * 3) % 8, q=q, lims=[lims[(i // 20 + sh[3]) % 3]] if tier == 'quick' else lims, last=lasts[i:i + 20])
    elif what == 'hist':
        rb = ROBOTS[sh[2]]
        for lim in (None, W3):
            yield 'hist', dict(r=rb, aux=sh[3] * 5, q=STARTS[rb[0]][sh[3]], lim=lim, h=.15, depth=(3 if lim is None and sh[2] < 4 and sh[3] == sh[2] // 2 else 2) if tier == 'quick' else 4, first=[MOVES[sh[4]]])
    elif what == 'run':
        rb = ROBOTS[sh[2]]
        q = STARTS[rb[0]][sh[3]]
        n = 48 if tier == 'quick' else 160
        for lim in (None, W3):
            if tier == 'quick' and (lim is None) != (sh[3] == 0):
                continue
            for j, s in MOVES:
                yield 'run', dict(r=rb, aux=0, q=q, lim=lim, steps=[(j, s * .25)] * n)
            for a, b in itertools.combinations(range(6), 2):
                if tier == 'quick' and sh[3] == 0 and (a + b) % 2:
                    continue
                yield 'run', dict(r=rb, aux=7, q=q, lim=lim, steps=[(a, .2), (b, -.2), (a, .2), (b, .15)] * (n // 12))
    else:
        for rb in ROBOTS:
            for q in poses(rb[0], 4):
                for last in ([0.] * 6, [1.] * 6, q):
                    yield 'none', dict(r=rb, q=q, last=last, far=1, lim=None)
                    yield 'none', dict(r=rb, q=q, last=last, far=1, lim=W3)
                    for j in range(6):
                        # limits that exclude every configuration: an empty window on one joint
                        lo, up = [-7.] * 6, [7.] * 6
                        lo[j], up[j] = 20.0, 20.001
                        T = ref.fk(robot(*rb), q)
                        S, inf = SOLVE[rb[0]][1](robot(*rb), T)
                        if inf.margin > 1e-3 and all(not ikref.window(s[j], 20., 20.001, 1e-3) for s, m in S):
                            yield 'none', dict(r=rb, q=q, last=last, far=0, lim=(lo, up))
