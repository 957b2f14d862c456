"""Forward kinematics against the homogeneous chain; joint limits against interval membership."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots
from mc.core import need, tick, note

ID = 'C05'
PI = math.pi
AX = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), tuple(ref.unit((1, 2, -2)).tolist()), tuple(ref.unit((-3, 1, 1)).tolist())]
BOUNDS = {'quick': 'every robot of 1 to 3 joints with axes in {+-x,+-y,+-z, two oblique} (3 joints: 5 axes) and every revolute/prismatic mix, all 8 presence patterns of base/flange/tool (below 3 joints also with translations only, rotations only, quarter/half turns), '
                   'joint values {0,pi/2,-2.5,0.7,7} (3 joints: 3 values); 1 to 3 joints with every pattern of zero/nonzero offsets (also axis-aligned ones below 3 joints); half a tool; robots of 1 to 3 joints of all types 0-3; joint values, offsets and auxiliary transforms of 3e-2, 3e-3, ... 3e-8 and 1e2 to 1e4; generic robots of 4-8 joints with every type mix up to 5 joints; 9 real robots on {-1.1,0,2.3}^n; limits: '
                   'every vector of {far below, below, lower, inside, upper, above, far above}^n for n<=3 and 6 limit shapes, and each joint separately on 6/7-joint robots',
          'thorough': '3 joints with 8 axes and 4 values, 4 joints with 4 axes, real robots on 4 values'}
ASSUME = ['a joint is clearly outside its limits from 1e-6 on', 'joint vectors are given as one-dimensional array, list or tuple', 'joint types 2 and 3 (mobile) are taken to move as revolute and prismatic joints, as the code does']


def close(T, E, what):
    need(isinstance(T, rox.Transform) and np.shape(T.R) == (3, 3) and np.shape(T.p) == (3,), '%s: returned %r', what, T)
    s = max(1.0, float(np.max(np.abs(E[:3, 3]))))
    need(np.max(np.abs(T.R - E[:3, :3])) < 1e-10 and np.max(np.abs(T.p - E[:3, 3])) < 1e-10 * s, '%s: pose is\n%s\nexpected\n%s', what, robots.toH(T), E)


FORMS = {'array': lambda q: np.array(q, dtype=float), 'list': list, 'tuple': tuple, 'arr': lambda q: np.array(q)}


def k_fk(p):
    s = p['s']
    r = robots.build(s, **({'joint_type': np.array(s['type'])} if False else {}))
    for q in p['q']:
        T = rox.fwdkin(r, np.array(q, dtype=float))
        tick()
        close(T, ref.fk(s, q), 'fwdkin(%s)' % (q,))
    q = p['q'][-1]
    E = ref.fk(s, q)
    close(rox.fwdkin(r, list(q)), E, 'fwdkin(list)')
    close(rox.fwdkin(r, tuple(q)), E, 'fwdkin(tuple)')
    tick(2)


def k_types(p):
    """Other legal ways to hold the same description."""
    s, q = p['s'], p['q']
    E = ref.fk(s, q)
    H, P = np.array(s['H'], dtype=float).T, np.array(s['P'], dtype=float).T
    for jt in (s['type'], np.array(s['type']), tuple(s['type']), np.array(s['type'], dtype=float)):
        for HH, PP in ((H, P), (np.asfortranarray(H), np.asfortranarray(P)), (np.ascontiguousarray(H), np.ascontiguousarray(P))):
            kw = {}
            if s.get('tool'):
                kw = dict(R_tool=np.array(s['tool'][0]), p_tool=np.array(s['tool'][1]).reshape(p['pshape']))
            if s.get('base'):
                kw['T_base'] = robots.T(s['base'], 'world', 'base')
            if s.get('flange'):
                kw['T_flange'] = robots.T(s['flange'], 'link_n', 'flange')
            r = rox.Robot(HH.copy(order='K'), PP.copy(order='K'), jt, **kw)
            close(rox.fwdkin(r, np.array(q, dtype=float)), E, 'fwdkin with types %r' % (jt,))
            tick()
    if all(float(x).is_integer() for x in q):
        close(rox.fwdkin(robots.build(s), np.array([int(x) for x in q])), E, 'fwdkin(int)')
    if np.all(H == np.round(H)) and np.all(P == np.round(P)) and not (s.get('tool') or s.get('base') or s.get('flange')):
        close(rox.fwdkin(rox.Robot(H.astype(int), P.astype(int), s['type']), np.array(q, dtype=float)), E, 'fwdkin(int robot)')
        tick()


def k_lim(p):
    s, q = p['s'], p['q']
    lo, up = [float(x) for x in s['lower']], [float(x) for x in s['upper']]
    inside = all(a <= x <= b for a, x, b in zip(lo, q, up))
    for form in ('array', 'list'):
        f = FORMS[form]
        r = robots.build(s, joint_lower_limit=f(lo), joint_upper_limit=f(up))
        for fq in ('array', 'list'):
            try:
                T = rox.fwdkin(r, FORMS[fq](q))
            except Exception as e:
                tick()
                need(not inside, 'joint vector %s inside the limits %s..%s is refused (%s: %s)', q, lo, up, type(e).__name__, e)
                note('refused')
                continue
            tick()
            need(inside, 'joint vector %s outside the limits %s..%s is accepted', q, lo, up)
            note('accepted')
            close(T, ref.fk(s, q), 'fwdkin(%s)' % (q,))


def k_half(p):
    """One-sided limits are no limits: every vector is accepted. Half a tool is no tool."""
    s, q = p['s'], p['q']
    n = len(s['type'])
    for bits in (0, 1, 2, 3):
        s2 = robots.aux(s, bits)
        for kw in (dict(R_tool=np.array(robots.TOOL[0])), dict(p_tool=np.array(robots.TOOL[1]))):
            close(rox.fwdkin(robots.build(s2, **kw), np.array(q)), ref.fk(s2, q), 'fwdkin with half a tool (%s)' % list(kw))
            tick()
    for kw in (dict(joint_lower_limit=np.zeros(n)), dict(joint_upper_limit=np.zeros(n)), {}):
        close(rox.fwdkin(robots.build(s, **kw), np.array(q)), ref.fk(s, q), 'fwdkin without complete limits')
        tick()


KINDS = dict(fk=k_fk, types=k_types, lim=k_lim, half=k_half)
P0 = [(0.1, -0.2, 0.3), (0.5, 0.25, -0.4), (-0.3, 0.6, 0.2), (0.15, -0.35, 0.45), (0.2, 0.1, 0.7)]
REAL = dict(puma=robots.puma, abb=robots.abb, ur5e=lambda: robots.ur(*robots.UR5E), ur10p=lambda: robots.ur(*robots.UR10, sg=1), sawyer=robots.sawyer, scara=robots.scara,
            gantry=robots.gantry, g6=lambda: robots.generic(6, [0, 1, 0, 0, 1, 0]), g7=lambda: robots.generic(7))


def lat(vals, n, lim=None):
    out = [list(q) for q in itertools.product(vals, repeat=n)]
    return out


def shards(tier):
    out = [['n1', tier], ['lim', tier, 1], ['half', tier], ['types', tier]] + [['n2', tier, i] for i in range(8)]
    na = 5 if tier == 'quick' else 8
    out += [['n3', tier, i, j] for i in range(na) for j in range(na)]
    out += [['tiny', tier], ['big', tier]] + [['mob', tier, n] for n in (1, 2, 3)]
    out += [['pz', tier, n, i] for n in (1, 2, 3) for i in range(1 if n == 1 else 5)]
    out += [['gen', tier, n, b] for n in (4, 5, 6, 7, 8) for b in range(8)]
    out += [['real', tier, k, b] for k in REAL for b in ((0, 7) if tier == 'quick' else range(8))]
    out += [['lim', tier, 2, i] for i in range(6)] + [['lim', tier, 3, i] for i in range(6)] + [['limreal', tier, k] for k in REAL]
    if tier != 'quick':
        out += [['n4', tier, i, j] for i in range(4) for j in range(4)]
    return out


LIMS = [([-1.5, -0.5, 0.2], [2.0, 1.0, 3.0]), ([0.5, -7, -3], [0.9, 7, -1]), ([-1, -2, -1], [1, 2, 1]),
        ([0, 0, 0], [2, 3, 1]), ([-math.inf, -1, -2], [1, math.inf, math.inf]), ([1e-3, -1e-3, -PI], [2e-3, 1e-3, PI])]


def limvals(a, b):
    fa, fb = math.isfinite(a), math.isfinite(b)
    lo = a if fa else -50.
    up = b if fb else 50.
    v = [lo, (lo + up) / 2, up]
    if fa:
        v += [lo - 1e-6, lo - 0.4, lo - 2 * PI]
    if fb:
        v += [up + 1e-6, up + 0.4, up + 2 * PI]
    return v


def cases(sh):
    what, tier = sh[0], sh[1]
    types = lambda n: itertools.product((0, 1), repeat=n)
    if what in ('n1', 'n2', 'n3', 'n4'):
        n = int(what[1])
        if n == 1:
            axs = [(a,) for a in AX]
        elif n == 2:
            axs = [(AX[sh[2]], b) for b in AX]
        elif n == 3:
            sel = AX[:5] if tier == 'quick' else AX
            sel = [sel[0], sel[1], sel[2], sel[4], AX[6]] if tier == 'quick' else sel
            axs = [(sel[sh[2]], sel[sh[3]], c) for c in sel]
        else:
            sel = [AX[0], AX[4], AX[2], AX[7]]
            axs = [(sel[sh[2]], sel[sh[3]], c, d) for c in sel for d in sel]
        vals = (0, PI / 2, -2.5, 0.7, 7) if n < 3 else ((0, -2.5, 0.7) if tier == 'quick' or n == 4 else (0, PI / 2, -2.5, 0.7))
        for H in axs:
            for t in types(n):
                for b in range(32) if n < 2 else list(range(8)) + ([9, 10, 12, 15, 17, 18, 20, 23, 25, 26, 28, 31] if n == 2 else []):
                    s = robots.aux(robots.mk(H, P0[:n + 1], t), b)
                    yield 'fk', dict(s=s, q=lat(vals, n))
    elif what == 'pz':
        # every pattern of zero, axis-aligned and generic offsets
        n = sh[2]
        sel = [AX[0], AX[1], AX[2], AX[5], AX[6]] if n < 3 or tier != 'quick' else [AX[0], AX[2], AX[6]]
        for H in itertools.product(sel, repeat=n):
            if n > 1 and sel.index(H[0]) != sh[3]:
                continue
            for Z in itertools.product((0, 1, 2) if n < 3 else (0, 1), repeat=n + 1):
                P = [(0, 0, 0) if z == 0 else P0[i] if z == 1 else [0.7 * (k == i % 3) for k in range(3)] for i, z in enumerate(Z)]
                for t in types(n):
                    for b in (0, 7) if n < 3 else (0,):
                        yield 'fk', dict(s=robots.aux(robots.mk(H, P, t), b), q=lat((-2.5, 0.7), n))
    elif what == 'gen':
        n, b = sh[2], sh[3]
        for t in (types(n) if n <= 5 else ([0] * n, [1] * n, [0, 1] * (n // 2) + [0] * (n % 2), [1, 0, 0] * (n // 3) + [1] * (n % 3))):
            s = robots.aux(robots.generic(n, t, seed=b), b)
            yield 'fk', dict(s=s, q=lat((0.4, -2.1), n))
    elif what == 'real':
        s = robots.aux(REAL[sh[2]](), sh[3])
        s.pop('lower', None)
        n = len(s['type'])
        vals = (-1.1, 0, 2.3) if tier == 'quick' else (-1.1, 0, 2.3, PI / 2)
        if n == 7:
            vals = vals[:3] if tier != 'quick' else (-1.1, 2.3)
        qs = lat(vals, n)
        for i in range(0, len(qs), 64):
            yield 'fk', dict(s=s, q=qs[i:i + 64])
    elif what == 'types':
        for t in ([0, 0], [0, 1], [1, 0]):
            for b in range(8):
                for H in ((AX[0], AX[4]), (AX[6], AX[2])):
                    for P in (P0[:3], [(1, 0, 2), (0, -1, 0), (3, 0, 1)]):
                        for q in ([1, -2], [0.3, 0.8]):
                            for ps in ((3,), (3, 1)):
                                yield 'types', dict(s=robots.aux(robots.mk(H, P, t), b), q=q, pshape=ps)
    elif what == 'tiny':
        # small corrections: joint values, offsets and auxiliary transforms from .03 down to 3e-8
        for e in robots.TINY:
            for n in (1, 2, 3):
                for t in types(n):
                    for H in ((AX[0], AX[2], AX[4]), (AX[6], AX[1], AX[7])):
                        vals = ((0.7, e, -e) if n < 3 else (0.7, e))
                        for b in (0, 7):
                            yield 'fk', dict(s=robots.aux(robots.mk(H[:n], P0[:n + 1], t), b), q=lat(vals, n))
                        yield 'fk', dict(s=robots.mk(H[:n], [[e * x for x in v] for v in P0[:n + 1]], t), q=lat((0.7, -e), n))
                        yield 'fk', dict(s=robots.mk(H[:n], [[e * x for x in v] if i % 2 else v for i, v in enumerate(P0[:n + 1])], t), q=lat((0.7, -e), n))
        for v in range(len(robots.TINY)):
            for b in range(1, 8):
                for n in (1, 2):
                    for t in types(n):
                        yield 'fk', dict(s=robots.aux(robots.mk((AX[4], AX[6])[:n], P0[:n + 1], t), b + 8 * (v + 4)), q=lat((0.4, -2.1), n))
                yield 'fk', dict(s=robots.aux(REAL['puma'](), b + 8 * (v + 4)), q=[[.3, -.2, .4, .5, .6, -.7]])
    elif what == 'big':
        # joint values of many turns, long links
        for e in (1e2, 1e3, 1e4):
            for n in (1, 2):
                for t in types(n):
                    for b in (0, 7):
                        yield 'fk', dict(s=robots.aux(robots.mk((AX[4], AX[6])[:n], [[e * x for x in v] for v in P0[:n + 1]], t), b), q=lat((0.7, e, -e - .3), n))
    elif what == 'mob':
        # joint types 2 and 3 of mobile robots move as revolute and prismatic joints
        n = sh[2]
        for t in itertools.product((0, 1, 2, 3), repeat=n):
            if max(t) > 1:
                for H in ((AX[0], AX[2], AX[4]), (AX[4], AX[6], AX[1]), (AX[7], AX[7], AX[3])):
                    for b in (0, 7) if n == 3 else range(8):
                        yield 'fk', dict(s=robots.aux(robots.mk(H[:n], P0[:n + 1], t), b), q=lat((0, -2.5, 0.7) if n < 3 else (-2.5, 0.7), n))
    elif what == 'half':
        for t in types(3):
            for q in lat((-9., 0.5, 12.), 3):
                yield 'half', dict(s=robots.mk(AX[:3], P0[:4], t), q=q)
    elif what == 'lim':
        n = sh[2]
        for i in ([sh[3]] if n > 1 else range(len(LIMS))):
            lo, up = LIMS[i]
            for t in types(n):
                s = robots.mk(AX[4:4 + n], P0[:n + 1], t, lower=[x if math.isfinite(x) else str(x) for x in lo[:n]], upper=[x if math.isfinite(x) else str(x) for x in up[:n]])
                for q in itertools.product(*[limvals(a, b) for a, b in zip(lo[:n], up[:n])]):
                    yield 'lim', dict(s=s, q=list(q))
    elif what == 'limreal':
        s = REAL[sh[2]]()
        n = len(s['type'])
        s.setdefault('lower', [-2.0 - 0.3 * i for i in range(n)])
        s.setdefault('upper', [1.5 + 0.4 * i for i in range(n)])
        mid = [0.5 * (a + b) for a, b in zip(s['lower'], s['upper'])]
        for side in ('mid', 'lower', 'upper'):
            base = mid if side == 'mid' else s[side]
            yield 'lim', dict(s=s, q=list(base))
            for i in range(n):
                for v in limvals(s['lower'][i], s['upper'][i]):
                    q = list(base)
                    q[i] = v
                    yield 'lim', dict(s=s, q=q)
                for j in range(i):
                    for d in (-0.3, 0.3):
                        q = list(mid)
                        q[i] = s['lower'][i] + d
                        q[j] = s['upper'][j] + d
                        yield 'lim', dict(s=s, q=q)
