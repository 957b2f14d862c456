"""Subproblems 0 and 1 over axes x vectors x full-circle angles."""
import itertools, math, warnings
import numpy as np
import general_robotics_toolbox as rox
from mc import ref
from mc.core import need, tick, note

ID = 'C07'
PI = math.pi
BOUNDS = {'quick': '98 primitive axis directions of {-2..2}^3 + 6 tilted ones x 4 perpendicular phases x ratios along/across the axis {0,1,-1,30,-1e3,1e5,1e-3,3e6,-2e7} x scales {1,1e-9,1e-3,250,1e6} '
                   'x 39 angles (every pi/12 on the full circle, offsets 1e-3..1e-9 of 0 and +-pi); image with all rounding patterns {-1,0,1}ulp^3 for ratio/scale 1; subproblem 0 '
                   'on the perpendicular ones and refusals for out-of-plane ratios +-1e-3, +-0.1, +-1, +-10 in either or both vectors; subproblem 1 on vectors of unequal length (warning and angle)',
          'thorough': 'axes of {-3..3}^3, 8 phases, rounding patterns everywhere'}
ASSUME = ['the angle is required within 1e-9 + 4e-8 |p|/|p_perp| rad (the documented shortcut for nearly equal vectors is 1.5e-8)', 'a vector is clearly not perpendicular from a cosine of 1e-3 on']


def perp(k, phase):
    a = np.eye(3)[int(np.argmin(np.abs(k)))]
    e = ref.unit(ref.cross(k, a))
    f = ref.cross(k, e)
    return math.cos(phase) * e + math.sin(phase) * f


def ang_ok(th, want, tol):
    return np.ndim(th) == 0 and math.isfinite(float(th)) and ref.ad(float(th), want) < tol


def vecs(p):
    k = ref.unit(p['k'])
    e = perp(k, p['ph'])
    v = p['scale'] * (e + p['ratio'] * k) / max(1.0, abs(p['ratio']))
    return k, v


def k_sp(p):
    k, v = vecs(p)
    nv = np.linalg.norm(v)
    a = p['scale'] / max(1.0, abs(p['ratio']))
    tol = 1e-9 + 4e-8 * nv / a
    for th in p['th']:
        R = ref.rotm(k, th)
        q0 = R @ v
        qs = [q0]
        if p['pat']:
            qs = [q0 * (1 + 1.2e-16 * np.array(e)) for e in itertools.product((-1, 0, 1), repeat=3)]
        for q in qs:
            r = rox.subproblem1(v.copy(), q, k.copy())
            tick()
            need(ang_ok(r, th, tol), 'subproblem1(%s,%s,%s) = %s, expected %r', v.tolist(), q.tolist(), k.tolist(), r, th)
            need(np.max(np.abs(ref.rotm(k, float(r)) @ v - q)) < 4e-8 * nv, 'subproblem1(%s,%s,%s) = %s does not map', v.tolist(), q.tolist(), k.tolist(), r)
            if p['ratio'] == 0:
                r = rox.subproblem0(v.copy(), q, k.copy())
                tick()
                need(ang_ok(r, th, 1e-7), 'subproblem0(%s,%s,%s) = %s, expected %r', v.tolist(), q.tolist(), k.tolist(), r, th)


def k_int(p):
    k, v = np.array(p['k']), np.array(p['v'])
    for n in range(-2, 3):
        M = np.round(ref.rotm(k, n * PI / 2)).astype(int)
        q = M @ v
        r = rox.subproblem1(v.copy(), q.copy(), k.copy())
        tick()
        if int(np.dot(v, v)) != int(np.dot(v, k)) ** 2:
            need(ang_ok(r, n * PI / 2, 1e-7), 'subproblem1(%s,%s,%s) = %s, expected %r', v, q, k, r, n * PI / 2)
            if np.dot(v, k) == 0:
                r = rox.subproblem0(v.copy(), q.copy(), k.copy())
                tick()
                need(ang_ok(r, n * PI / 2, 1e-7), 'subproblem0(%s,%s,%s) = %s, expected %r', v, q, k, r, n * PI / 2)
        else:
            # any angle maps the vector onto itself
            need(np.ndim(r) == 0 and math.isfinite(float(r)), 'subproblem1(%s,%s,%s) = %s', v, q, k, r)


def k_refuse(p):
    k = ref.unit(p['k'])
    e = perp(k, p['ph'])
    f = ref.rotm(k, p['th']) @ e
    v, q = p['scale'] * (e + p['a'] * k), p['scale'] * (f + p['b'] * k)
    try:
        r = rox.subproblem0(v, q, k)
    except Exception:
        tick()
        note('refused')
        return
    need(False, 'subproblem0(%s,%s,%s) = %s although not perpendicular', v.tolist(), q.tolist(), k.tolist(), r)


def k_len(p):
    """Vectors of different length: the angle between the parts across the axis, and a warning when they differ clearly."""
    k, v = vecs(p)
    for th in (0., 1e-3, .4, -2., 3.1, PI / 2):
        q0 = ref.rotm(k, th) @ v
        for f in (.2, .5, .9, .97, 1., 1.03, 1.2, 2., 7.):
            if f == 1. and th == 0:
                continue
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                r = rox.subproblem1(v.copy(), f * q0, k.copy())
            tick()
            need(ang_ok(r, th, 1e-6), 'subproblem1(%s,%s,%s) = %s, expected %r', v.tolist(), (f * q0).tolist(), k.tolist(), r, th)
            need(bool(w) == (f != 1.), 'subproblem1(%s,%s,%s): %s for lengths in the ratio %g', v.tolist(), (f * q0).tolist(), k.tolist(), 'a warning: %s' % w[0].message if w else 'no warning', f)


KINDS = dict(sp=k_sp, int=k_int, refuse=k_refuse, len=k_len)


def axes(tier):
    out = list(ref.prim_axes(2 if tier == 'quick' else 3))
    return out + [(1, 1e-4, 0), (0, 1, -1e-6), (1e-9, 0, 1), (-1, 1e-3, 1e-7), (1e-5, -1, 1e-5), (0, 1e-12, -1)]


def angles():
    out = [n * PI / 12 for n in range(-12, 13)]
    for o in (1e-3, 1e-5, 1e-7, 1e-9):
        out += [o, -o, PI - o, -PI + o]
    return out


def shards(tier):
    return [['sp', tier, i] for i in range(len(axes(tier)))] + [['int', tier], ['len', tier]] + [['refuse', tier, i] for i in range(4)]


def cases(sh):
    what, tier = sh[0], sh[1]
    if what == 'sp':
        k = axes(tier)[sh[2]]
        for ph in ((0, 1.0, 2.7, -1.9) if tier == 'quick' else (0, 1.0, 2.7, -1.9, PI, 0.5, -0.1, PI / 4)):
            for ratio in (0, 1, -1, 30, -1e3, 1e5, 1e-3, 3e6, -2e7):
                for sc in ((1.0, 1e-9, 1e-3, 250., 1e6) if ratio in (0, 1) else (1.0, 0.02)):
                    pat = (sc == 1.0 and ratio in (0, 1) and ph == 0) or tier != 'quick'
                    yield 'sp', dict(k=k, ph=ph, ratio=ratio, scale=sc, th=angles(), pat=bool(pat))
    elif what == 'len':
        for k in axes(tier)[::3]:
            for ph in (0, 1.9):
                for ratio in (0, .5, -3.):
                    for sc in (1e-6, 1., 400.):
                        yield 'len', dict(k=k, ph=ph, ratio=ratio, scale=sc)
    elif what == 'int':
        for k in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1)):
            for v in itertools.product((-2, -1, 0, 1, 3), repeat=3):
                if any(v):
                    yield 'int', dict(k=k, v=v)
    else:
        for k in axes('quick')[sh[2]::12]:
            for ph in (0, 2.0):
                for th in (0, 0.4, -2.0, PI):
                    for sc in (1e-3, 1.0, 100.0):
                        ms = (0, 1e-3, -1e-3, .1, -.1, 1, -1, 10, -10)
                        for a in ms:
                            for b in ms:
                                if a or b:
                                    yield 'refuse', dict(k=k, ph=ph, th=th, a=a, b=b, scale=sc)
