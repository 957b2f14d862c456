"""Shared by C09, C10, C11: verdict on one inverse kinematics answer."""
import math
import numpy as np
import general_robotics_toolbox as rox
from . import ref, robots, ikref
from .core import need, tick, note

PI = math.pi
MARGIN = 1e-3


def sound(spec, T, sols, what):
    need(isinstance(sols, (list, tuple, np.ndarray)), '%s returned %r', what, sols)
    scale = max(1.0, float(np.max(np.abs(T[:3, 3]))))
    lo, up = spec.get('lower'), spec.get('upper')
    for q in sols:
        q = np.asarray(q, dtype=float)
        need(q.shape == (6,), '%s: an entry has shape %s', what, q.shape)
        need(np.all(np.isfinite(q)), '%s: entry %s', what, q)
        if lo is not None:
            need(np.all(q >= np.array(lo) - 1e-9) and np.all(q <= np.array(up) + 1e-9), '%s: entry %s is outside the limits %s %s', what, q.tolist(), lo, up)
        e = np.max(np.abs(ref.fk(spec, q) - T))
        need(e < 5e-6 * scale, '%s: entry %s misses the pose by %g', what, q.tolist(), e)


def judge(refsolve, spec, T, sols, what, reachable):
    """Soundness, duplicates, completeness. reachable: the pose was generated from joints (inside the limits if there are any)."""
    sound(spec, T, sols, what)
    S, inf = refsolve(spec, T)
    lo, up = spec.get('lower'), spec.get('upper')
    sols = [np.asarray(q, dtype=float) for q in sols]
    regular = inf.margin > MARGIN
    if regular:
        for i, q in enumerate(sols):
            need(any(ikref.same_mod(q, s, 1e-5) for s, m in S), '%s: entry %s is none of the %d configurations', what, q.tolist(), len(S))
            for q2 in sols[:i]:
                need(not ikref.same_mod(q, q2, 1e-5), '%s: %s is returned twice', what, q.tolist())
    expected = 0
    for s, m in S:
        if m <= MARGIN:
            continue
        if lo is not None:
            ws = [ikref.window(t, a, b, 1e-6) for t, a, b in zip(s, lo, up)]
            if any(w is None for w in ws):
                continue
            if any(len(w) == 0 for w in ws):
                continue
        expected += 1
        need(any(ikref.same_mod(q, s, 1e-5) for q in sols), '%s: configuration %s reaches the pose%s but is not returned (%d returned, %d exist)',
             what, s, '' if lo is None else ' within the limits %s %s' % (lo, up), len(sols), len(S))
    if regular and not S:
        need(len(sols) == 0, '%s: pose cannot be reached but %s is returned', what, sols)
        note('unreachable')
    elif reachable and lo is None:
        need(len(sols) > 0, '%s: reachable pose but nothing is returned', what)
    note('%s, %d solutions' % ('regular' if regular else 'near singular', len(sols)) if inf.margin > 1e-9 else 'singular, %s' % ('some' if sols else 'none'))
    return S, inf


def snapshot(r, T):
    return [np.array(x).tobytes() for x in (r.H, r.P, T.R, T.p)]


def ask(fn, spec, T, **kw):
    r = robots.build(spec)
    Tt = robots.TH(T)
    s = snapshot(r, Tt)
    out = fn(r, Tt, **kw)
    tick()
    need(snapshot(r, Tt) == s, 'the robot or the pose was modified')
    return out


# ---- limit shapes; each is a function of the joint vector the pose was made from ----
def limits(shape, q):
    n = len(q)
    if shape == 'none':
        return None
    if shape == 'wide':
        return [-2 * PI - .3] * n, [2 * PI + .2] * n
    if shape == 'pi':
        return [-PI * .9] * n, [PI * .95] * n
    if shape == 'abb':
        return [math.radians(x) for x in (-170, -65, -180, -300, -120, -360)], [math.radians(x) for x in (170, 85, 70, 300, 120, 360)]
    if shape == 'tight':
        return [x - .11 for x in q], [x + .07 for x in q]
    if shape == 'shift':        # windows a whole turn or more away from the principal range
        k = (1, -1, 2, -2, 3, -3)
        return [x + 2 * PI * k[i] - .2 for i, x in enumerate(q)], [x + 2 * PI * k[i] + .9 for i, x in enumerate(q)]
    if shape == 'half':         # half turn windows that contain q
        return [x - (PI if i % 2 else .05) for i, x in enumerate(q)], [x + (.05 if i % 2 else PI) for i, x in enumerate(q)]
    if shape == 'miss':         # exactly one joint excludes q
        lo, up = [x - 1.6 for x in q], [x + 1.6 for x in q]
        j = int(abs(q[0] * 1000)) % n
        lo[j], up[j] = q[j] + .05, q[j] + .6
        return lo, up
    if shape == 'multi':
        return [-.4 - .1 * i for i in range(n)], [4 * PI + .3 * i for i in range(n)]
    raise KeyError(shape)


SHAPES = ['none', 'wide', 'pi', 'abb', 'tight', 'shift', 'half', 'miss', 'multi']


def with_limits(spec, shape, q):
    L = limits(shape, q)
    s = dict(spec)
    s.pop('lower', None)
    s.pop('upper', None)
    if L is not None:
        s['lower'], s['upper'] = L
    return s
