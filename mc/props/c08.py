"""Subproblems 2, 3, 4: soundness, completeness, tangent, infeasible and degenerate instances."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref
from mc.core import need, tick, note

ID = 'C08'
PI = math.pi
BOUNDS = {'quick': 'subproblems 3 and 4: 19 axes x all ordered pairs of 16 vectors (parallel, perpendicular, equal, opposite and generic ones) x scales {1,0.01,100,1e-4} x targets reached at 12 angles and at 4 angles within 0.01 rad of an extreme, both extremes with '
                   '+-{0,1,3} ulp, and 4 margins beyond either extreme; subproblem 2: all ordered pairs of 15 axes and nearly parallel/perpendicular ones x 10 vectors x 12x6 angle pairs (one vector at scales {0.1,100,1e-3,2e-5}), cones that cross 0.001 to 0.02 rad from tangency, tangent cones with '
                   'rounding patterns, cones that miss on either side by 4 margins, parallel and antiparallel axes, vectors along an axis',
          'thorough': '49 axes, 26 vectors, 24 angles; subproblem 2 with 25 axes and 24x12 angle pairs'}
ASSUME = ['subproblem 3 is only asked with a distance d >= 0', 'subproblem 2 is only asked with vectors of equal length', 'an instance is nondegenerate if the cosine that decides it is at most 1-1e-4 in magnitude (1-1e-7 where the rotation changes the target by at least 1%), clearly infeasible from 1+1e-4 on; '
          'in between only soundness is required, except at the exact boundary (up to 3 ulp, where rotation changes the target by at least 1%) where a solution is required too',
          'axes of subproblem 2 are parallel exactly or at an angle of at least 0.05 rad']


def trig(f):
    """f(theta)=a0+A cos+B sin from three values; returns a0, rho, phi"""
    f0, f1, f2 = f(0.0), f(PI / 2), f(PI)
    a0 = (f0 + f2) / 2
    A, B = (f0 - f2) / 2, f1 - a0
    return a0, math.hypot(A, B), math.atan2(B, A)


def finite(ths, what):
    need(isinstance(ths, (list, tuple, np.ndarray)), '%s = %r', what, ths)
    for t in ths:
        need(np.ndim(t) == 0 and math.isfinite(float(t)), '%s = %s', what, ths)


def contains(ths, want, tol):
    return any(ref.ad(float(t), want) < tol for t in ths)


def k_sp34(p):
    n, k = p['n'], ref.unit(p['k'])
    a, b = np.array(p['p'], dtype=float) * p['s'], np.array(p['q'], dtype=float) * p['s']
    if n == 3:
        f = lambda t: float(np.sum((b + ref.rotm(k, t) @ a) ** 2))
        sc = (np.linalg.norm(a) + np.linalg.norm(b)) ** 2
        val = lambda t: math.sqrt(max(0.0, f(t)))
        vs = np.linalg.norm(a) + np.linalg.norm(b)
        sq = lambda d: d * d
    else:
        f = val = lambda t: float(a @ (ref.rotm(k, t) @ b))
        sc = vs = np.linalg.norm(a) * np.linalg.norm(b)
        sq = lambda d: d
    call = rox.subproblem3 if n == 3 else rox.subproblem4
    a0, rho, phi = trig(f)
    degenerate = rho < 1e-9 * sc

    def ask(d):
        what = 'subproblem%d(%s,%s,%s,%r)' % (n, a.tolist(), b.tolist(), k.tolist(), d)
        r = call(a.copy(), b.copy(), k.copy(), d)
        tick()
        finite(r, what)
        for t in r:
            need(abs(val(float(t)) - d) < 2e-7 * vs, '%s = %s: at %r the value is %r', what, r, t, val(float(t)))
        return r, what

    if degenerate:
        d = val(0.3)
        r, what = ask(d)
        need(len(r) >= 1, '%s = %s although every angle is a solution', what, r)
        note('degenerate')
        for m in (1e-2, 0.5):
            for d2 in ([d + m * vs] + ([d - m * vs] if n == 4 or d > m * vs else [])):
                r, what = ask(d2)
                need(len(r) == 0, '%s = %s although no angle is a solution', what, r)
        return
    for th in p['th']:
        t = phi + th
        d = val(t)
        c = (sq(d) - a0) / rho
        if abs(c) > 1 - (1e-4 if rho < 1e-2 * sc else 1e-7):
            continue
        r, what = ask(d)
        ps = math.acos(max(-1.0, min(1.0, c)))
        tol = 1e-6 * max(1.0, (sc / rho))
        for w in (phi + ps, phi - ps):
            need(contains(r, w, tol), '%s = %s misses the solution %r', what, r, w)
        note('two solutions')
    for sg in (1, -1):
        ext = a0 + sg * rho
        d0 = math.sqrt(max(0.0, ext)) if n == 3 else ext
        for u in (0, 1, -1, 3, -3) if rho > 1e-2 * sc else ():
            d = d0 * (1 + u * 2.220446049250313e-16)
            r, what = ask(d)
            need(len(r) >= 1, '%s = [] at the tangent boundary', what)
            note('tangent')
        for m in (1e-3, 0.02, 0.5, 4):
            e2 = a0 + sg * rho * (1 + m) if n == 4 else ext + sg * m * rho
            if n == 3:
                if e2 < 0:
                    continue
                e2 = math.sqrt(e2)
            r, what = ask(e2)
            need(len(r) == 0, '%s = %s although it is infeasible', what, r)
            note('infeasible')


def pairs_sound(r, k1, k2, v, w, tol, what):
    need(isinstance(r, (list, tuple, np.ndarray)), '%s = %r', what, r)
    for x in r:
        need(len(x) == 2, '%s = %s', what, r)
        t1, t2 = [float(t) for t in x]
        need(math.isfinite(t1) and math.isfinite(t2), '%s = %s', what, r)
        e = np.max(np.abs(ref.rotm(k1, t1) @ (ref.rotm(k2, t2) @ v) - w))
        need(e < tol * np.linalg.norm(v), '%s = %s: pair %s maps to a vector off by %g', what, r, x, e)


def solve2(k1, k2, v, w):
    """cosine deciding the instance and the reference solutions"""
    a0, rho, phi = trig(lambda t: float(k1 @ (ref.rotm(k2, t) @ v)))
    if rho < 1e-12 * np.linalg.norm(v):
        return None, []
    c = (float(k1 @ w) - a0) / rho
    if abs(c) > 1:
        return c, []
    out = []
    for sg in (1, -1):
        t2 = phi + sg * math.acos(c)
        m = ref.rotm(k2, t2) @ v
        mp, wp = m - (m @ k1) * k1, w - (w @ k1) * k1
        t1 = math.atan2(float(k1 @ ref.cross(mp, wp)), float(mp @ wp))
        out.append((t1, t2, min(np.linalg.norm(mp), np.linalg.norm(wp)) / np.linalg.norm(v)))
    return c, out


def k_sp2(p):
    k1, k2 = ref.unit(p['k1']), ref.unit(p['k2'])
    v = np.array(p['p'], dtype=float) * p['s']
    for t1, t2 in p['th']:
        w = ref.rotm(k1, t1) @ (ref.rotm(k2, t2) @ v)
        what = 'subproblem2(%s,%s,%s,%s)' % (v.tolist(), w.tolist(), k1.tolist(), k2.tolist())
        r = rox.subproblem2(v.copy(), w.copy(), k1.copy(), k2.copy())
        tick()
        c, sols = solve2(k1, k2, v, w)
        lim = 1 - (1e-7 if 'o' in p else 1e-4)
        s12 = np.linalg.norm(ref.cross(k1, k2))
        pairs_sound(r, k1, k2, v, w, 2e-6 if c is None or abs(c) > 1 - 1e-4 else 1e-8 / s12 ** 2, what)
        if c is not None and abs(c) <= lim and min(x[2] for x in sols) > 1e-3:
            note('two solutions')
            for a, b, g in sols:
                need(any(ref.ad(float(x[0]), a) < 1e-6 / g / s12 ** 2 and ref.ad(float(x[1]), b) < 1e-6 / s12 ** 2 for x in r), '%s = %s misses the solution %s', what, r, (a, b))


def k_tan2(p):
    """c lies in the plane of the axes (or on one of them)."""
    k1, k2 = ref.unit(p['k1']), ref.unit(p['k2'])
    c = ref.unit(p['al'] * k1 + p['be'] * k2) * p['s']
    w = ref.rotm(k1, p['t1']) @ c
    v = ref.rotm(k2, -p['t2']) @ c
    for e in p['e']:
        w2 = w * (1 + 1.2e-16 * np.array(e))
        what = 'subproblem2(%s,%s,%s,%s)' % (v.tolist(), w2.tolist(), k1.tolist(), k2.tolist())
        r = rox.subproblem2(v.copy(), w2, k1.copy(), k2.copy())
        tick()
        pairs_sound(r, k1, k2, v, w2, 2e-6, what)
        need(len(r) >= 1, '%s = [] although the cones touch', what)
        note('tangent')


def k_miss2(p):
    k1, k2 = ref.unit(p['k1']), ref.unit(p['k2'])
    v = ref.rotm(k2, p['t2']) @ ref.unit(math.cos(p['g2']) * k2 + math.sin(p['g2']) * ref.unit(ref.cross(k2, k1)))
    w = ref.rotm(k1, p['t1']) @ ref.unit(math.cos(p['g1']) * k1 + math.sin(p['g1']) * ref.unit(ref.cross(k1, k2)))
    v, w = v * p['s'], w * p['s']
    what = 'subproblem2(%s,%s,%s,%s)' % (v.tolist(), w.tolist(), k1.tolist(), k2.tolist())
    g12 = math.acos(max(-1, min(1, float(k1 @ k2))))
    # cones of half angles g1 (k1) and g2 (k2) meet iff |g1-g2| <= g12 <= min(g1+g2, 2pi-g1-g2)
    lo, hi = abs(p['g1'] - p['g2']), min(p['g1'] + p['g2'], 2 * PI - p['g1'] - p['g2'])
    m = min(g12 - lo, hi - g12)
    if abs(m) < 1e-3:
        return
    r = rox.subproblem2(v.copy(), w.copy(), k1.copy(), k2.copy())
    tick()
    pairs_sound(r, k1, k2, v, w, 1e-7 / np.linalg.norm(ref.cross(k1, k2)) ** 2, what)
    need((len(r) > 0) == (m > 0), '%s = %s, expected %s solution', what, r, 'a' if m > 0 else 'no')
    note('meet' if m > 0 else 'infeasible')


def k_par2(p):
    k = ref.unit(p['k'])
    v = np.array(p['p'], dtype=float)
    for k2 in (k, -k):
        w = ref.rotm(k, p['t']) @ v
        r = rox.subproblem2(v, w, k.copy(), k2.copy())
        tick()
        need(isinstance(r, list) and len(r) == 0, 'subproblem2 with parallel axes %s gives %s', k, r)


def k_thin2(p):
    """Cones that cross at a small angle: two distinct solutions close to each other."""
    k1, k2 = ref.unit(p['k1']), ref.unit(p['k2'])
    v = np.array(p['p'], dtype=float)
    a0, rho, phi = trig(lambda t: float(k1 @ (ref.rotm(k2, t) @ v)))
    if rho < 1e-2 * np.linalg.norm(v):
        return
    k_sp2(dict(p, s=1.0, th=[(t1, phi + b + o) for t1 in p['t1'] for b in (0, PI) for o in p['o']]))


KINDS = dict(thin2=k_thin2, sp34=k_sp34, sp2=k_sp2, tan2=k_tan2, miss2=k_miss2, par2=k_par2)
V = [(1, 0, 0), (0, 2, 0), (0, 0, 1), (-1, 0, 0), (0, 0, -3), (1, 1, 0), (1, 1, 1), (-1, -1, -1), (.3, -.2, .9), (-.3, .2, -.9), (0.1, 0.7, 0), (1, -1, 2), (0, .5, .5), (2, 2, 2), (-.4, .8, .05), (0.01, 0, 1),
     (3, 0, 0), (0, -1, 0), (.9, -.2, .3), (-.2, .9, .3), (0, .6, .8), (.6, 0, .8), (1, 2, 3), (-2, 1, 0), (.5, .5, -.7), (5, -4, 3)]


def ax34(tier):
    return [a for a in ref.prim_axes(1 if tier == 'quick' else 2) if a > tuple(-x for x in a)] + [(0, 0, -1), (-1, 0, 0), (-1, 2, 2), (.3, -.2, .9), (1, 1e-4, 0), (2, -1, 0)]


def ax2(tier):
    a = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 0), (1, 0, -1), (1, 1, 1), (-1, 2, 2), (.3, -.2, .9), (1, .06, 0), (0, .06, 1), (.2, 1, 0), (-.5, 0, 1)]
    return a if tier == 'quick' else a + [(2, 1, 0), (0, -1, 1), (-1, -1, 1), (3, 1, -2), (1, 1e-3, 1e-3), (1, 0, 1), (-1, .1, 0), (0, 2, -1), (1, -2, 1), (1, 1, .1)]


def apart(a, b):
    return np.linalg.norm(ref.cross(ref.unit(a), ref.unit(b))) > 0.05


def shards(tier):
    out = [['sp34', tier, i] for i in range(len(ax34(tier)))]
    out += [[w, tier, i] for w in ('sp2', 'thin2', 'tan2', 'miss2') for i in range(len(ax2(tier)))] + [['par2', tier]]
    return out


def cases(sh):
    what, tier = sh[0], sh[1]
    q = tier == 'quick'
    if what == 'sp34':
        k = ax34(tier)[sh[2]]
        th = [(i + .37) * 2 * PI / (12 if q else 24) for i in range(12 if q else 24)]
        th += [b + o for b in (0, PI) for o in ((.01, .002) if q else (.05, .01, .004, .002, .001))]
        vs = V[:16] if q else V
        for n in (3, 4):
            for a in vs:
                for b in vs:
                    yield 'sp34', dict(n=n, k=k, p=a, q=b, s=1.0, th=th)
                    if a == vs[8] or b == vs[6]:
                        for s in (0.01, 100., 1e-4):
                            yield 'sp34', dict(n=n, k=k, p=a, q=b, s=s, th=th[::3])
    elif what == 'sp2':
        k1 = ax2(tier)[sh[2]]
        n1, n2 = (12, 6) if q else (24, 12)
        th = [(-PI + i * 2 * PI / n1 + .05, -PI + j * 2 * PI / n2) for i in range(n1) for j in range(n2)]
        for k2 in ax2(tier):
            if apart(k1, k2):
                for v in V[:10] if q else V:
                    for s in ((1.0,) if v != V[8] else (1.0, 0.1, 100.0, 1e-3, 2e-5)):
                        yield 'sp2', dict(k1=k1, k2=k2, p=v, s=s, th=th if s == 1.0 else th[::5])
    elif what == 'thin2':
        k1 = ax2(tier)[sh[2]]
        for k2 in ax2(tier):
            if apart(k1, k2):
                for v in V[:10] if q else V:
                    yield 'thin2', dict(k1=k1, k2=k2, p=v, t1=(.4, -2.) if q else (.4, -2., 1.3, 3.), o=(.02, .005, -.01, .001) if q else (.05, .02, .01, .005, .002, .001, -.01, -.003, -.001))
    elif what == 'tan2':
        k1 = ax2(tier)[sh[2]]
        es = list(itertools.product((-1, 0, 1), repeat=3))
        for k2 in ax2(tier):
            if apart(k1, k2):
                for al, be in ((1, 1), (1, -1), (-1, .3), (.2, 1), (-1, -1), (0, 1), (1, 0), (0, -1), (-1, 0), (-.7, 2)):
                    for t1, t2 in ((0, 0), (.4, -1.1), (-2.5, 2.9), (PI, PI / 2)):
                        yield 'tan2', dict(k1=k1, k2=k2, al=al, be=be, t1=t1, t2=t2, s=1.0, e=es)
                    yield 'tan2', dict(k1=k1, k2=k2, al=al, be=be, t1=.4, t2=-1.1, s=1e-3, e=es[::3])
                    yield 'tan2', dict(k1=k1, k2=k2, al=al, be=be, t1=.4, t2=-1.1, s=300., e=es[::3])
    elif what == 'miss2':
        k1 = ax2(tier)[sh[2]]
        gs = [.02, .3, .8, 1.2, PI / 2, 1.9, 2.4, 2.9, PI - .02]
        for k2 in ax2(tier):
            if apart(k1, k2):
                for g1 in gs:
                    for g2 in gs:
                        for t1, t2 in ((0, 0), (.9, -2.0)):
                            yield 'miss2', dict(k1=k1, k2=k2, g1=g1, g2=g2, t1=t1, t2=t2, s=1.0)
                    yield 'miss2', dict(k1=k1, k2=k2, g1=g1, g2=1.2, t1=.9, t2=-2., s=1e-3)
    else:
        for k in ref.prim_axes(2):
            for v in V[:10]:
                for t in (0, .4, -2.):
                    yield 'par2', dict(k=k, p=v, t=t)
