"""Independent inverse kinematics references (trigonometric equations solved joint by joint)."""
import math
import numpy as np
from . import ref

PI = math.pi


def trig_solve(f, v):
    """Solutions t of f(t)=v for f(t)=a0+A cos t+B sin t. Returns (cosine, relative amplitude, [t...])."""
    f0, f1, f2 = f(0.0), f(PI / 2), f(PI)
    a0 = (f0 + f2) / 2
    A, B = (f0 - f2) / 2, f1 - a0
    rho = math.hypot(A, B)
    if rho < 1e-14:
        return None, 0.0, []
    c = (v - a0) / rho
    if abs(c) > 1:
        return c, rho, []
    phi, ps = math.atan2(B, A), math.acos(c)
    return c, rho, [phi + ps, phi - ps]


def about(k, a, b):
    """Angle about k that turns a onto b, and the smaller perpendicular length."""
    ap, bp = a - (a @ k) * k, b - (b @ k) * k
    return math.atan2(float(k @ ref.cross(ap, bp)), float(ap @ bp)), min(np.linalg.norm(ap), np.linalg.norm(bp))


class Info(object):
    """margin: how far the pose is from any singularity or reach boundary on any branch (0 = on it)."""
    def __init__(self):
        self.margin = 1.0

    def see(self, *m):
        self.margin = min((self.margin,) + m)
        return min(m)


def strip(spec, H):
    """Pose of the end of the chain without base, flange and tool."""
    return ref.hinv(ref.aux_T(spec, 'base')) @ H @ ref.hinv(ref.aux_T(spec, 'tool')) @ ref.hinv(ref.aux_T(spec, 'flange'))


def wrist(h, R, inf):
    """Solutions (a, b, c, margin) of rot(h4,a)rot(h5,b)rot(h6,c)=R"""
    out = []
    c, rho, bs = trig_solve(lambda t: float(h[0] @ (ref.rotm(h[1], t) @ h[2])), float(h[0] @ (R @ h[2])))
    if c is None:
        inf.see(0)
        return out
    m0 = inf.see(math.sqrt(abs(1 - abs(c))))
    for b in bs:
        m = ref.rotm(h[1], b)
        a, pa = about(h[0], m @ h[2], R @ h[2])
        g, pg = about(h[2], m.T @ h[0], R.T @ h[0])
        out.append((a, b, -g, min(m0, inf.see(pa, pg))))
    return out


def first(spec, T, links):
    E = strip(spec, T)
    R, p = E[:3, :3], E[:3, 3]
    h = [np.array(x, dtype=float) for x in spec['H']]
    P = [np.array(x, dtype=float) for x in spec['P']]
    w = p - R @ (P[5] + P[6]) - P[0]
    scale = sum(np.linalg.norm(x) for x in P[1:5])
    y = np.array([0., 1., 0.])
    c, rho, q1s = trig_solve(lambda t: float(y @ (ref.rotm(h[0], -t) @ w)), float(y @ (P[1] + P[2] + P[3] + P[4])))
    return h, P, R, w, scale, c, rho, q1s


def sw(spec, T):
    """Spherical wrist arm: h1 = +-z, h2, h3 = +-y, P4 along h4, P5 along h6. Returns ([(solution, margin)], Info)."""
    inf = Info()
    h, P, R, w, scale, c, rho, q1s = first(spec, T, 4)
    P34 = P[3] + P[4]
    out = []
    if c is None or rho < 1e-9 * scale:
        inf.see(0)
        return out, inf
    m1 = inf.see(math.sqrt(abs(1 - abs(c))), rho / scale)
    for q1 in q1s:
        u = ref.rotm(h[0], -q1) @ w - P[1]
        c, rho, q3s = trig_solve(lambda t: float(np.sum((P[2] + ref.rotm(h[2], t) @ P34) ** 2)), float(u @ u))
        if c is None:
            inf.see(0)
            continue
        m3 = inf.see(math.sqrt(abs(1 - abs(c))))
        for q3 in q3s:
            m = P[2] + ref.rotm(h[2], q3) @ P34
            q2, pp = about(h[1], m, u)
            m2 = inf.see(pp / scale)
            R03 = ref.rotm(h[0], q1) @ ref.rotm(h[1], q2) @ ref.rotm(h[2], q3)
            for q4, q5, q6, mw in wrist(h[3:], R03.T @ R, inf):
                out.append(([q1, q2, q3, q4, q5, q6], min(m1, m2, m3, mw)))
    return out, inf


def ur(spec, T):
    """h1=z, h2=h3=h4=+-y, h5=-z, h6=+-y; P5 along h6."""
    inf = Info()
    h, P, R, w, scale, c, rho, q1s = first(spec, T, 5)
    out = []
    if c is None or rho < 1e-9 * scale:
        inf.see(0)
        return out, inf
    m1 = inf.see(math.sqrt(abs(1 - abs(c))), rho / scale)
    for q1 in q1s:
        R1 = ref.rotm(h[0], q1)
        for q24, q5, q6, mw in wrist([h[1], h[4], h[5]], R1.T @ R, inf):
            v = R1.T @ w - P[1] - ref.rotm(h[1], q24) @ P[4]
            c, rho, q3s = trig_solve(lambda t: float(np.sum((P[2] + ref.rotm(h[2], t) @ P[3]) ** 2)), float(v @ v))
            if c is None:
                inf.see(0)
                continue
            m3 = inf.see(math.sqrt(abs(1 - abs(c))))
            for q3 in q3s:
                m = P[2] + ref.rotm(h[2], q3) @ P[3]
                q2, pp = about(h[1], m, v)
                m2 = inf.see(pp / scale)
                out.append(([q1, q2, q3, q24 - q2 - q3, q5, q6], min(m1, m2, m3, mw)))
    return out, inf


def same_mod(a, b, tol):
    return all(ref.ad(x, y) < tol for x, y in zip(a, b))


def uniq(sols, tol=1e-6):
    out = []
    for s in sols:
        if not any(same_mod(s, t, tol) for t in out):
            out.append(s)
    return out


def window(th, lo, up, margin):
    """Representatives of th (mod 2pi) inside (lo, up); None if one of them is within margin of a bound."""
    k0 = math.ceil((lo - margin - th) / (2 * PI))
    k1 = math.floor((up + margin - th) / (2 * PI))
    out = []
    for k in range(k0, k1 + 1):
        v = th + 2 * PI * k
        if abs(v - lo) <= margin or abs(v - up) <= margin:
            return None
        out.append(v)
    return out
