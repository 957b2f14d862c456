"""Robot descriptions (plain JSON-able dictionaries) and their construction."""
import math
import numpy as np
import general_robotics_toolbox as rox
from . import ref

S2, S3 = math.sqrt(0.5), math.sqrt(1.0 / 3)


def _tr(axis, th, p):
    return [ref.rotm(ref.unit(axis), th).tolist(), list(p)]


BASE = _tr((1, 2, 3), 0.7, (0.3, -0.2, 0.5))
FLANGE = _tr((-2, 1, 1), 1.9, (0.05, 0.11, -0.07))
TOOL = _tr((1, -1, 2), -2.3, (-0.09, 0.04, 0.17))
TINY = (.03, 3e-3, 3e-4, 3e-5, 3e-6, 3e-7, 3e-8)
BASE2 = _tr((0, 1, 0), math.pi / 2, (0, 1.0, 0))
FLANGE2 = _tr((1, 0, 0), -math.pi / 2, (.1, 0, 0))
TOOL2 = _tr((0, 0, 1), math.pi, (0, 0, 0.2))


def aux(spec, bits):
    """bits: 1 base, 2 flange, 4 tool; bits >> 3 picks their alphabet: generic, translations, rotations, half/quarter turns, from 4 on
    small corrections by .03, .003, ... down to 3e-8 (the generic axes and directions)"""
    s = dict(spec)
    v = bits >> 3
    if v >= 4:
        e = TINY[v - 4]
        for n, b, ax, d in (('base', 1, (1, 2, 3), (.3, -.2, .5)), ('flange', 2, (-2, 1, 1), (.5, 1, -.7)), ('tool', 4, (1, -1, 2), (-.9, .4, 1))):
            if bits & b:
                s[n] = _tr(ax, e, tuple(e * x for x in d))
        return s
    for n, b, g, sp in (('base', 1, BASE, BASE2), ('flange', 2, FLANGE, FLANGE2), ('tool', 4, TOOL, TOOL2)):
        if bits & b:
            s[n] = g if v == 0 else (np.eye(3).tolist(), g[1]) if v == 1 else (g[0], [0., 0., 0.]) if v == 2 else sp
    return s


def mk(H, P, types=None, **kw):
    s = dict(H=[list(map(float, h)) for h in H], P=[list(map(float, p)) for p in P], type=list(types or [0] * len(H)))
    s.update(kw)
    return s


def build(s, **over):
    """The library's Robot for a description. Arrays are fresh on every call."""
    kw = {}
    if s.get('lower') is not None:
        kw['joint_lower_limit'] = np.array(s['lower'], dtype=float)
        kw['joint_upper_limit'] = np.array(s['upper'], dtype=float)
    if s.get('tool') is not None:
        kw['R_tool'] = np.array(s['tool'][0], dtype=float)
        kw['p_tool'] = np.array(s['tool'][1], dtype=float)
    if s.get('flange') is not None:
        kw['T_flange'] = T(s['flange'])
    if s.get('base') is not None:
        kw['T_base'] = T(s['base'])
    for a, b in (('names', 'joint_names'), ('root', 'root_link_name'), ('tip', 'tip_link_name'), ('vel', 'joint_vel_limit'), ('acc', 'joint_acc_limit')):
        if s.get(a) is not None:
            v = s[a]
            kw[b] = np.array(v, dtype=float) if a in ('vel', 'acc') else (list(v) if isinstance(v, list) else v)
    kw.update(over)
    return rox.Robot(np.array(s['H'], dtype=float).T.copy(), np.array(s['P'], dtype=float).T.copy(), list(s['type']), **kw)


def T(t, parent=None, child=None):
    return rox.Transform(np.array(t[0], dtype=float), np.array(t[1], dtype=float), parent, child)


def TH(H, parent=None, child=None):
    return rox.Transform(H[:3, :3].copy(), H[:3, 3].copy(), parent, child)


def toH(t):
    return ref.hom(np.asarray(t.R, dtype=float), np.asarray(t.p, dtype=float))


X, Y, Z = (1, 0, 0), (0, 1, 0), (0, 0, 1)
NX, NY, NZ = (-1, 0, 0), (0, -1, 0), (0, 0, -1)
O = (0, 0, 0)
IN = 0.0254


def puma():
    return mk([Z, Y, Y, Z, Y, X], [(0, 0, 13 * IN), O, (7.8 * IN, -4.9 * IN, -.75 * IN), (0, 0, -8 * IN), O, O, (2.2 * IN, 0, 0)])


def abb():
    return mk([Z, Y, Y, X, Y, X], [(0, 0, 0.78), (0.32, 0, 0), (0, 0, 1.075), (0, 0, 0.2), (1.142, 0, 0), (0.2, 0, 0), O],
              lower=[math.radians(x) for x in (-170, -65, -180, -300, -120, -360)],
              upper=[math.radians(x) for x in (170, 85, 70, 300, 120, 360)])


def ur(d1, a2, a3, d4, d5, d6, sg=-1, split=None):
    """UR arm; sg=-1: H = z,-y,-y,-y,-z,-y along -x; sg=+1: H = z,y,y,y,-z,y along +x.
    split: shares of d4 put into P1, P2, P3 (default all in P3)."""
    f = split or (0, 0, 1)
    return mk([Z] + [(0, sg, 0)] * 3 + [NZ, (0, sg, 0)],
              [(0, 0, d1), (0, sg * f[0] * d4, 0), (sg * a2, sg * f[1] * d4, 0), (sg * a3, sg * f[2] * d4, 0), (0, 0, -d5), (0, sg * d6, 0), O])


UR5E = (0.1625, 0.425, 0.3922, 0.1333, 0.0997, 0.0996)
UR3E = (0.15185, 0.24355, 0.2132, 0.13105, 0.08535, 0.0921)
UR10 = (0.1273, 0.612, 0.5723, 0.163941, 0.1157, 0.0922)


def sawyer():
    return mk([Z, Y, X, Y, X, Y, X],
              [(0, 0, .08), (0.081, 0.05, .237), (0.14, .1425, 0), (0.26, 0.042, 0), (0.125, -.1265, 0), (.275, .031, 0), (0.11, .1053, 0), (.0245, 0, 0)])


def scara():
    return mk([Z, Z, NZ, Z], [(0, 0, .4), (.325, 0, 0), (.225, 0, 0), (0, 0, -.1), (0, 0, -.05)], [0, 0, 1, 0])


def gantry():
    return mk([X, Y, Z], [O, (0, 0, .1), (.2, 0, 0), (0, .3, -.1)], [1, 1, 1])


def generic(n, types=None, seed=0):
    """A deterministic robot with generic axes and offsets."""
    H, P = [], [(0.11, -0.23, 0.31)]
    for i in range(n):
        j = i + 3 * seed
        H.append(tuple(ref.unit((math.cos(1.3 * j + .2), math.sin(2.1 * j + .5), math.cos(0.7 * j + 1.1)))))
        P.append((0.3 * math.sin(1.1 * j + .3), 0.4 * math.cos(1.7 * j), 0.25 * math.sin(0.9 * j + 2)))
    return mk(H, P, types)
