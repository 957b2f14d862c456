"""Reference mathematics, written independently of the code under test."""
import itertools, math
import numpy as np

PI = math.pi


def rotm(k, th):
    """Rotation matrix written out by components (k is a unit vector)."""
    x, y, z = [float(a) for a in np.ravel(k)]
    c, s = math.cos(th), math.sin(th)
    v = 2.0 * math.sin(th / 2) ** 2
    return np.array([[c + x * x * v, x * y * v - z * s, x * z * v + y * s],
                     [y * x * v + z * s, c + y * y * v, y * z * v - x * s],
                     [z * x * v - y * s, z * y * v + x * s, c + z * z * v]])


def cross(a, b):
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=float)


def qmul(a, b):
    a0, a1, a2, a3 = a
    b0, b1, b2, b3 = b
    return np.array([a0 * b0 - a1 * b1 - a2 * b2 - a3 * b3,
                     a0 * b1 + a1 * b0 + a2 * b3 - a3 * b2,
                     a0 * b2 - a1 * b3 + a2 * b0 + a3 * b1,
                     a0 * b3 + a1 * b2 - a2 * b1 + a3 * b0])


def qconj(a):
    return np.array([a[0], -a[1], -a[2], -a[3]])


def q2m(q):
    w, x, y, z = np.array(q, dtype=float) / math.sqrt(sum(float(a) ** 2 for a in q))
    return np.array([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]])


def aa2q(k, th):
    k = np.ravel(k)
    return np.array([math.cos(th / 2)] + [math.sin(th / 2) * float(a) for a in k])


def m2q(R):
    """Quaternion of a rotation matrix from the largest eigenvector (Bar-Itzhack)."""
    K = np.array([[R[0, 0] - R[1, 1] - R[2, 2], 0, 0, 0],
                  [R[0, 1] + R[1, 0], R[1, 1] - R[0, 0] - R[2, 2], 0, 0],
                  [R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], R[2, 2] - R[0, 0] - R[1, 1], 0],
                  [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1], R[0, 0] + R[1, 1] + R[2, 2]]]) / 3.0
    w, v = np.linalg.eigh(K)
    x, y, z, s = v[:, np.argmax(w)]
    return np.array([s, x, y, z])


def rpym(r, p, y):
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    return np.array([[cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
                     [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
                     [-sp, cp * sr, cp * cr]])


def unit(v):
    v = np.array(v, dtype=float)
    return v / math.sqrt(float(np.sum(v * v)))


def hom(R, p):
    T = np.zeros((4, 4))
    for i in range(3):
        for j in range(3):
            T[i, j] = R[i][j]
        T[i, 3] = np.ravel(p)[i]
    T[3, 3] = 1.0
    return T


def hinv(T):
    R = T[:3, :3].T
    return hom(R, -R @ T[:3, 3])


def angle_between(Ra, Rb):
    """Rotation angle between two rotation matrices, accurate for small angles."""
    d = np.linalg.norm(np.asarray(Ra) - np.asarray(Rb)) / math.sqrt(8)
    return 2 * math.asin(min(1.0, d))


def wrap(a):
    """To (-pi, pi]."""
    a = math.fmod(a, 2 * PI)
    if a > PI:
        a -= 2 * PI
    if a <= -PI:
        a += 2 * PI
    return a


def ad(a, b):
    """Angle distance modulo whole turns."""
    return abs(wrap(a - b))


def prim_axes(n, ndiv=True):
    """Primitive integer directions of {-n..n}^3."""
    out = []
    for v in itertools.product(range(-n, n + 1), repeat=3):
        if v == (0, 0, 0):
            continue
        g = math.gcd(math.gcd(abs(v[0]), abs(v[1])), abs(v[2]))
        if g == 1:
            out.append(v)
    out.sort(key=lambda v: (sum(abs(a) for a in v), v))
    return out


# ---- proper signed permutations: the 24 rotations of the cube ----
def cube_group():
    out = []
    for perm in itertools.permutations(range(3)):
        for sg in itertools.product((1, -1), repeat=3):
            M = np.zeros((3, 3))
            for i in range(3):
                M[i, perm[i]] = sg[i]
            if np.linalg.det(M) > 0:
                out.append(M)
    return out


# ---- forward kinematics of a robot given as a plain description ----
def joint_T(h, t, q):
    return hom(rotm(h, q), [0, 0, 0]) if t in (0, 2) else hom(np.eye(3), [float(a) * q for a in h])


def frames(spec, q):
    """Homogeneous frames after P0, after joint i and P(i+1): list of length n+1."""
    T = hom(np.eye(3), spec['P'][0])
    out = [T]
    for i in range(len(spec['type'])):
        T = T @ joint_T(spec['H'][i], spec['type'][i], q[i]) @ hom(np.eye(3), spec['P'][i + 1])
        out.append(T)
    return out


def aux_T(spec, name):
    t = spec.get(name)
    return np.eye(4) if t is None else hom(np.array(t[0], dtype=float), t[1])


def fk(spec, q):
    return aux_T(spec, 'base') @ frames(spec, q)[-1] @ aux_T(spec, 'flange') @ aux_T(spec, 'tool')


def jac(spec, q):
    """Geometric Jacobian from the joint axes in the world frame."""
    B = aux_T(spec, 'base')
    T = B @ hom(np.eye(3), spec['P'][0])
    pts = []
    for i in range(len(spec['type'])):
        h = T[:3, :3] @ np.array(spec['H'][i], dtype=float)
        pts.append((h, T[:3, 3].copy()))
        T = T @ joint_T(spec['H'][i], spec['type'][i], q[i])
        T = T @ hom(np.eye(3), spec['P'][i + 1])
    pT = fk(spec, q)[:3, 3]
    J = np.zeros((6, len(pts)))
    for i, (h, o) in enumerate(pts):
        if spec['type'][i] in (0, 2):
            J[:3, i] = h
            J[3:, i] = cross(h, pT - o)
        else:
            J[3:, i] = h
    return J
