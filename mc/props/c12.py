"""Equivalent configurations against brute-force enumeration of all whole-turn shifts."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots
from mc.robots import mk, X, Y, Z, O
from mc.core import need, tick, note

ID = 'C12'
PI = math.pi
T2 = 2 * PI
BOUNDS = {'quick': '1 to 3 joints: all combinations of 8 limit windows (0 to 3 extra turns on either side, half-turn and sub-turn windows, windows away from zero) x revolute, prismatic or mobile translation per joint '
                   'x 3 angles per joint; 4 joints: 4 windows; 6 and 7 joints: 3 windows per joint in rotation (up to 3^7 results); angles with a variant .03 to 8e-7 from a limit, on either side, for 1 to 6 joints; lists of up to 2 (some windows 3) configurations incl. ones that are '
                   'equivalent to or repeat each other, and of 4 to 12 that are whole turns of one or two poses; entries as float or integer arrays, lists, tuples; previous positions absent, near, far, as list/tuple/array',
          'thorough': '3 joints with 12 windows, 4 joints with 8 windows, 4 angles per joint'}
ASSUME = ['the robot has joint limits and the given configurations are within them', 'no shifted joint within 1e-6 of a limit',
          'prismatic joints are never shifted even if their range exceeds 2 pi', 'per joint at most 3 extra turns']
W = [(-1., 1.5), (-PI - .2, PI + .3), (-.4, T2 + .5), (-T2 - .6, .7), (-T2 - .3, T2 + .3), (-.5, 2 * T2 + 1.), (-3 * T2 - .1, .2), (T2 - .5, 3 * T2 + .4)]
W2 = W + [(-PI, PI), (-2 * T2 - .3, 2 * T2 + .3), (-9 * PI, -T2 - 1), (1., 1.0 + T2 + .01)]


def shifts(t, lo, up, typ):
    if typ != 0:
        return [t]
    return [t + T2 * k for k in range(-12, 13) if lo <= t + T2 * k <= up]


def ambiguous(t, lo, up):
    return any(abs(t + T2 * k - b) < 1e-6 for k in range(-12, 13) for b in (lo, up))


def robot(p):
    n = len(p['win'])
    return mk([(X, Y, Z)[i % 3] for i in range(n)], [(.1 * i, .2, -.05 * i) for i in range(n + 1)], p['types'],
              lower=[w[0] for w in p['win']], upper=[w[1] for w in p['win']])


def check(p, r, given, f, last):
    arg = [FORMS[(f + i) % len(FORMS)](q) for i, q in enumerate(given)]
    if f == 6:
        arg = tuple(arg)
    if f == 7:
        arg = np.array(given, dtype=float).reshape((len(given), len(p['win'])))
    before = [np.array(a, dtype=float).tolist() for a in arg]
    la = None if last is None else (list, tuple, np.array)[f % 3](last)
    if last is None:
        out = rox.equivalent_configurations(r, arg)
    else:
        out = rox.equivalent_configurations(r, arg, la)
    tick()
    what = 'equivalent_configurations(types %s, limits %s, %s, last %s)' % (p['types'], p['win'], arg, last)
    need([np.array(a, dtype=float).tolist() for a in arg] == before and (last is None or list(la) == list(last)), '%s modified its arguments', what)
    need(isinstance(out, (list, tuple, np.ndarray)), '%s gave %r', what, out)
    exp = []
    for q in given:
        for c in itertools.product(*[shifts(t, a, b, ty) for t, (a, b), ty in zip(q, p['win'], p['types'])]):
            if not any(np.max(np.abs(np.subtract(c, g))) < 1e-6 for g in given):
                exp.append(c)
    key = lambda c: tuple(int(math.floor(x * 1e5 + .5)) for x in c)
    got = []
    for o in out:
        o = np.asarray(o, dtype=float)
        need(o.shape == (len(p['win']),) and np.all(np.isfinite(o)), '%s: entry %s', what, o)
        got.append(o)
    need(len(got) == len(exp), '%s: %d configurations, expected %d', what, len(got), len(exp))
    if exp:
        A, B = np.array(sorted(key(g) for g in got)), np.array(sorted(key(e) for e in exp))
        if np.max(np.abs(A - B)) > 0:
            # rounding at a cell border: match one by one
            rest = [np.array(e) for e in exp]
            for g in got:
                i = [n for n, e in enumerate(rest) if np.max(np.abs(e - g)) < 1e-8]
                need(i, '%s: %s is not one of the equivalent configurations', what, g.tolist())
                rest.pop(i[0])
    for i, g in enumerate(got):
        for a in arg:
            need(not (isinstance(a, np.ndarray) and np.shares_memory(a, g)), '%s: a result shares memory with an argument', what)
    if last is not None:
        d = [float(np.linalg.norm(g - np.array(last, dtype=float))) for g in got]
        need(all(a <= b + 1e-9 for a, b in zip(d, d[1:])), '%s: not sorted by distance: %s', what, d)
    note('%d results' % len(exp) if len(exp) < 10 else '10 or more')


FORMS = [lambda q: np.array(q, dtype=float), list, tuple, lambda q: np.array(q)]


def k_win(p):
    """All configurations of an angle alphabet for one combination of windows and types."""
    r = robots.build(robot(p))
    al = []
    for (a, b), fr in zip(p['win'], itertools.cycle(p['frac'])):
        al.append([a + f * (b - a) for f in fr])
    qs = [list(q) for q in itertools.product(*al)]
    for n, q in enumerate(qs):
        if any(ty == 0 and ambiguous(t, a, b) for t, (a, b), ty in zip(q, p['win'], p['types'])):
            note('skipped, at a limit')
            continue
        last = [None, [t + .2 for t in q], [9.1 - t for t in q], [0] * len(q)][n % 4]
        check(p, r, [q], n % 8, last)
        if p['multi']:
            check(p, r, [q, qs[(n * 7 + 3) % len(qs)]] if not near(qs[(n * 7 + 3) % len(qs)], p) else [q, q], (n + 1) % 8, last)


def near(q, p):
    return any(ty == 0 and ambiguous(t, a, b) for t, (a, b), ty in zip(q, p['win'], p['types']))


def k_lists(p):
    """Lists of configurations that may be equivalent to each other, equal, empty; integer entries."""
    r = robots.build(robot(p))
    base = [w[0] + .3 * (w[1] - w[0]) for w in p['win']]
    eq = [list(c) for c in itertools.product(*[shifts(t, a, b, ty)[:2] for t, (a, b), ty in zip(base, p['win'], p['types'])])]
    other = [w[0] + .61 * (w[1] - w[0]) for w in p['win']]
    ints = [int(math.ceil(w[0] + .25)) for w in p['win']]
    pool = [base, eq[-1], eq[len(eq) // 2], other, ints]
    n = 0
    for k in range(p['kmax'] + 1):
        for g in itertools.product(pool, repeat=k):
            if any(near(q, p) for q in g):
                continue
            if any(not (a <= t <= b) for q in g for t, (a, b) in zip(q, p['win'])):
                continue
            for last in (None, [.5 + .3 * i for i in range(len(base))]):
                check(p, r, [list(q) for q in g], n % 8, last)
                n += 1
    # long lists: the first m of all equivalent configurations and of those of two poses, forwards and backwards
    two = []
    for b in (base, other):
        two.append([list(c) for c in itertools.product(*[shifts(t, a, c, ty) for t, (a, c), ty in zip(b, p['win'], p['types'])])])
    if not near(base, p) and not near(other, p):
        for m in (4, 5, 6, 8, 9, 12):
            for L in (two[0][:m], two[0][::-1][:m], two[1][::2][:m], (two[0][:m // 2] + two[1][:m - m // 2])):
                for last in (None, [.5 + .3 * i for i in range(len(base))]):
                    check(p, r, [list(q) for q in L], n % 8, last)
                    n += 1


def k_edge(p):
    """Angles whose whole-turn variants lie just inside or outside a limit."""
    r = robots.build(robot(p))
    al = []
    for a, b in p['win']:
        c = []
        for k in range(-3, 4):
            for bound in (a, b):
                for e in p['eps']:
                    for s in (1, -1):
                        t = bound + s * e + T2 * k
                        if a + 1e-6 < t < b - 1e-6:
                            c.append(t)
        al.append(c)
    n = 0
    if len(al) == 1:
        qs = [[t] for t in al[0]]
    else:
        m = max(map(len, al))
        qs = [[c[(i * (2 * j + 1) + j * d) % len(c)] for j, c in enumerate(al)] for i in range(m) for d in (0, 1, 3)] if all(al) else []
    for q in qs:
        if near(q, p):
            continue
        check(p, r, [q], n % 8, [None, [t + .2 for t in q], [0] * len(q)][n % 3])
        n += 1
    note('edge')


KINDS = dict(edge=k_edge, win=k_win, lists=k_lists)
FR = [[.07, .52, .93], [.31, .78, .11], [.44, .98, .02]]
FR4 = [f + [x] for f, x in zip(FR, (.66, .5, .85))]


def shards(tier):
    return [[tier, 'edge', i] for i in range(4)] + [[tier, n, i] for n in (1, 2, 3, 4, 6, 7) for i in range(8 if n > 1 else 1)] + [[tier, 'lists', i] for i in range(8)]


def cases(sh):
    tier, n, i = sh
    q = tier == 'quick'
    not_q = not q
    if n == 'edge':
        for m, e in enumerate((.03, 3e-3, 3e-4, 3e-5, 3e-6)):
            for n, w in enumerate([(w,) for w in W2] + list(itertools.product(W, repeat=2)) + [tuple(W2[(k * (j + 1) + j) % 12] for j in range(3)) for k in range(12)] + [tuple(W[(k * (j + 1) + j) % 8] for j in range(6)) for k in range(3)]):
                if (n + m) % 4 == i:
                    yield 'edge', dict(win=w, types=[0] * len(w), eps=[e] if len(w) > 1 and q else [e, e * .6, e * .27])
                    if len(w) > 1:
                        yield 'edge', dict(win=w, types=[(1 + 2 * (n // 2 % 2)) * int(k == n % len(w)) for k in range(len(w))], eps=[e])
        return
    if n == 'lists':
        for m, w in enumerate(itertools.product(W, repeat=2)):
            if m % 8 == i:
                for t in itertools.product((0, 1), repeat=2):
                    yield 'lists', dict(win=w, types=t, kmax=3 if m % 9 == 0 or not_q else 2)
        for w in itertools.product((W[1], W[4], W[5]), repeat=3):
            yield 'lists', dict(win=w, types=[0, 0, i % 2], kmax=3 if not_q else 2)
        return
    ws = {1: W2, 2: W2, 3: W if q else W2, 4: [W[0], W[2], W[4], W[3]] if q else W}.get(n)
    fr = FR if q else FR4
    if ws is not None:
        for m, w in enumerate(itertools.product(ws, repeat=n)):
            if n > 1 and m % 8 != i:
                continue
            if n < 3 or not q:
                ts = list(itertools.product((0, 1), repeat=n))
            elif n == 3:
                ts = list(itertools.product((0, 1), repeat=n))[m // 8 % 2::2]
            else:
                ts = [[0] * n, [(m >> k) & 1 for k in range(n)]]
            for t in ts:
                t = [3 if x and (m // 8 + k) % 2 else x for k, x in enumerate(t)]
                yield 'win', dict(win=w, types=t, frac=[f[:2] for f in fr] if (n == 4 or n == 3 and q) else fr, multi=n < 3)
    else:
        tri = [W[1], W[2], W[4]] if n == 6 else [W[0], W[4], W[3]]
        for rot in range(3):
            for t in [[0] * n] + [[int(k == j) for k in range(n)] for j in range(n)]:
                yield 'win', dict(win=[tri[(k * (i + 1) + rot + i) % 3] for k in range(n)], types=t, frac=[[.07 + .1 * i], [.77 - .05 * i]], multi=False)
