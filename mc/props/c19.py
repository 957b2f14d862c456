"""ROS message conversions: every component alphabet combination, all pose-like types and frame name combinations, against field-wise tables."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots, rosstub
from mc.core import need, tick, note, Bad

rosstub.install()
from geometry_msgs import msg as gm
from general_robotics_toolbox import ros_msg as rm

ID = 'C19'
PI = math.pi
BOUNDS = {'quick': 'vectors and points: all 8^3 component combinations x 5 argument shapes; quaternions: all 5^4 combinations with 4 shapes; twists and wrenches: all 5^6 combinations, and all 4 shapes for 3^6 of them; '
                   'rotations and transforms: 49 axes x 27 angles down to 1e-12 from 0 and pi, 4 kinds of pose-like message x all 16 frame name combinations (absent, empty, two names out of 12 with slashes, spaces, long and non-ASCII ones); message to transform for both '
                   'quaternion signs and integer fields; all 12 other message types and 14 non-messages refused; message independence',
          'thorough': '7^6 twists and wrenches, 145 axes'}
ASSUME = ['ROS is not installed: geometry_msgs is a stand-in with the field order, construction rules and defaults of the generated ROS classes', 'rotation quaternions in messages are unit quaternions',
          'an absent frame name comes back from a message as empty or absent']
V = [0., 1. + 2 ** -52, -2.5, 3.0000000001e-13, 1234567.8901234567e6, -PI, 7, -0.]
POS = [(.3, -.2, .5), (0., 1e3, -7e-9), (1., 2., 3.), (1e-10, -2e-10, 3e-12), (1. / 3, -2. / 7, 1e5 / 3), (-1e-4, 3e-5, 2e-3), (12, -7, 0), (1e9, -1e15, 1e-15), (-0., 0., -1.)]
NAMES = [None, '', 'world', 'tool0']
# the two named ones are replaced by these in turn
ODD = ['/map', 'world', 'tool0/', ' a b ', 'gr\u00f6\u00dfe', 'World', 'a/b', 'None', '0', '//', 'x' * 300]


def exact(got, want, what, *a):
    need(isinstance(got, np.ndarray), what + ": got a %s, not an array", *(a + (type(got),)))
    got = np.asarray(got)
    need(got.shape == (len(want),) and np.array_equal(got.astype(float), np.array(want, dtype=float)), what + ': got %s, expected %s', *(a + (got, want)))


def fields(m, names, vals, cls, what):
    need(type(m) is cls, '%s gave %s, expected a %s', what, type(m).__name__, cls.__name__)
    for n, v in zip(names, vals):
        x = getattr(m, n)
        need(np.shape(x) == () and float(x) == v, '%s: field %s is %r, expected %r', what, n, x, v)


def shapes(v, k):
    a = np.array(v, dtype=float)
    return [a, a.reshape(-1, 1), a.reshape(1, -1), list(v), tuple(v)][k]


def k_vec(p):
    for v in itertools.product(V, repeat=2):
        v = (p['x'],) + v
        for k in range(5):
            a = shapes(v, k)
            keep = np.array(a)
            fields(rm.p2msg(a), 'xyz', v, gm.Vector3, 'p2msg(%r)' % (a,))
            fields(rm.p2point_msg(a), 'xyz', v, gm.Point, 'p2point_msg(%r)' % (a,))
            exact(rm.msg2p(rm.p2msg(a)), v, 'msg2p of p2msg')
            exact(rm.point_msg2p(rm.p2point_msg(a)), v, 'point_msg2p of p2point_msg')
            need(np.array_equal(np.array(a), keep), 'argument modified')
            tick(4)
        exact(rm.msg2p(gm.Vector3(*v)), v, 'msg2p')
        exact(rm.point_msg2p(gm.Point(*v)), v, 'point_msg2p')
        m = gm.Vector3(*v)
        a = rm.msg2p(m)
        a[:] = 99
        need(m == gm.Vector3(*v), 'changing the vector changed the message')
        tick(2)


def k_quat(p):
    for v in itertools.product(V[:5], repeat=3):
        q = (p['w'],) + v
        for k in range(4):
            a = shapes(q, k)
            fields(rm.q2msg(a), 'wxyz', q, gm.Quaternion, 'q2msg(%r)' % (a,))
            exact(rm.msg2q(rm.q2msg(a)), q, 'msg2q of q2msg')
            tick(2)
        exact(rm.msg2q(gm.Quaternion(q[1], q[2], q[3], q[0])), q, 'msg2q')


def k_six(p):
    al = V[:p['n']]
    for r in itertools.product(al, repeat=5):
        v = (p['x'],) + r
        for k in range(4) if all(x in al[:3] for x in v) else (0,):
            a = shapes(v, k)
            t, w = rm.twist2msg(a), rm.wrench2msg(a)
            need(type(t) is gm.Twist and type(w) is gm.Wrench, 'types %s %s', type(t).__name__, type(w).__name__)
            fields(t.angular, 'xyz', v[:3], gm.Vector3, 'twist2msg(%r).angular' % (a,))
            fields(t.linear, 'xyz', v[3:], gm.Vector3, 'twist2msg(%r).linear' % (a,))
            fields(w.torque, 'xyz', v[:3], gm.Vector3, 'wrench2msg(%r).torque' % (a,))
            fields(w.force, 'xyz', v[3:], gm.Vector3, 'wrench2msg(%r).force' % (a,))
            exact(rm.msg2twist(t), v, 'msg2twist')
            exact(rm.msg2wrench(w), v, 'msg2wrench')
            tick(4)


def qcheck(m, R, what):
    need(type(m) is gm.Quaternion, '%s: rotation is a %s', what, type(m).__name__)
    q = np.array([m.w, m.x, m.y, m.z], dtype=float)
    need(np.all(np.isfinite(q)) and abs(np.sum(q * q) - 1) < 1e-9, '%s: quaternion %s is not a unit quaternion', what, q)
    need(np.max(np.abs(ref.q2m(q) - R)) < TOL, '%s: quaternion %s is the rotation\n%s\nexpected\n%s', what, q, ref.q2m(q), R)


TOL = 1e-11


def tcheck(T, R, p, par, ch, what):
    need(isinstance(T, rox.Transform), '%s gave %r', what, T)
    need(np.shape(T.R) == (3, 3) and np.max(np.abs(T.R - R)) < TOL, '%s: rotation\n%s\nexpected\n%s', what, T.R, R)
    need(np.shape(T.p) == (3,) and np.array_equal(np.array(T.p, dtype=float), np.array(p, dtype=float)), '%s: position %s, expected %s', what, T.p, p)
    for got, want, n in ((T.parent_frame_id, par, 'parent'), (T.child_frame_id, ch, 'child')):
        need(got == want or (not want and not got), '%s: %s frame is %r, expected %r', what, n, got, want)


def k_rot(p):
    k = ref.unit(p['axis'])
    for n, th in enumerate(p['angles']):
        R = ref.rotm(k, th)
        qcheck(rm.R2msg(R.copy()), R, 'R2msg of %.17g about %s' % (th, k))
        q = ref.aa2q(k, th)
        for s in (1, -1):
            m = gm.Quaternion(s * q[1], s * q[2], s * q[3], s * q[0])
            B = rm.msg2R(m)
            need(np.shape(B) == (3, 3) and np.max(np.abs(B - R)) < TOL, 'msg2R(%r) is\n%s\nexpected\n%s', m, B, R)
        need(np.max(np.abs(rm.msg2R(rm.R2msg(R)) - R)) < TOL, 'msg2R of R2msg of %.17g about %s', th, k)
        tick(4)
        pos = POS[(n + p['names']) % 9]
        par, ch = NAMES[p['names'] % 4], NAMES[p['names'] // 4]
        if n % 2:
            par, ch = par and ODD[(n // 2 + len(par)) % len(ODD)], ch and ODD[(n // 2 * 3 + len(ch)) % len(ODD)]
        T = rox.Transform(R.copy(), np.array(pos), par, ch)
        keep = (T.R.tobytes(), T.p.tobytes(), T.parent_frame_id, T.child_frame_id)
        w = 'rotation %.17g about %s' % (th, k)
        m = rm.transform2msg(T)
        need(type(m) is gm.Transform, 'transform2msg gave %s', type(m).__name__)
        fields(m.translation, 'xyz', pos, gm.Vector3, 'transform2msg translation')
        qcheck(m.rotation, R, 'transform2msg of ' + w)
        tcheck(rm.msg2transform(m), R, pos, None, None, 'msg2transform of Transform, ' + w)
        m = rm.transform2pose_msg(T)
        need(type(m) is gm.Pose, 'transform2pose_msg gave %s', type(m).__name__)
        fields(m.position, 'xyz', pos, gm.Point, 'transform2pose_msg position')
        qcheck(m.orientation, R, 'transform2pose_msg of ' + w)
        tcheck(rm.msg2transform(m), R, pos, None, None, 'msg2transform of Pose, ' + w)
        m = rm.transform2transform_stamped_msg(T)
        need(type(m) is gm.TransformStamped and type(m.transform) is gm.Transform, 'transform2transform_stamped_msg gave %s', type(m).__name__)
        fields(m.transform.translation, 'xyz', pos, gm.Vector3, 'transform2transform_stamped_msg translation')
        qcheck(m.transform.rotation, R, 'transform2transform_stamped_msg of ' + w)
        need((m.header.frame_id, m.child_frame_id) == (par or '', ch or ''), 'frames of the stamped transform are %r, expected %r', (m.header.frame_id, m.child_frame_id), (par, ch))
        tcheck(rm.msg2transform(m), R, pos, par, ch, 'msg2transform of TransformStamped, ' + w)
        m2 = rm.transform2pose_stamped_msg(T)
        need(type(m2) is gm.PoseStamped and type(m2.pose) is gm.Pose, 'transform2pose_stamped_msg gave %s', type(m2).__name__)
        fields(m2.pose.position, 'xyz', pos, gm.Point, 'transform2pose_stamped_msg position')
        qcheck(m2.pose.orientation, R, 'transform2pose_stamped_msg of ' + w)
        need(m2.header.frame_id == (par or ''), 'frame of the stamped pose is %r, expected %r', m2.header.frame_id, par)
        tcheck(rm.msg2transform(m2), R, pos, par, None, 'msg2transform of PoseStamped, ' + w)
        need((T.R.tobytes(), T.p.tobytes(), T.parent_frame_id, T.child_frame_id) == keep, 'the transform was modified')
        # messages are independent of one another and of the transform
        m3 = rm.transform2transform_stamped_msg(rox.Transform(np.eye(3), np.zeros(3), 'other', 'thing'))
        need((m.header.frame_id, m.child_frame_id, m2.header.frame_id) == (par or '', ch or '', par or ''), 'a later message changed an earlier one')
        m3.transform.translation.x = 77.
        need(m.transform.translation.x == pos[0] and m2.pose.position.x == pos[0] and T.p[0] == pos[0], 'messages share their fields')
        tick(8)


def k_msg(p):
    """Messages made by others: both quaternion signs, integer fields, names."""
    k = ref.unit(p['axis'])
    for n, th in enumerate(p['angles']):
        R = ref.rotm(k, th)
        q = ref.aa2q(k, th)
        for s, (par, ch) in itertools.product((1, -1), itertools.product(NAMES[1:], repeat=2)):
            if n % 2:
                par, ch = par and ODD[(n // 2 + len(par) * s) % len(ODD)], ch and ODD[(n // 2 * 3 + len(ch)) % len(ODD)]
            Q = lambda: gm.Quaternion(s * q[1], s * q[2], s * q[3], s * q[0])
            pos = ((.25, -3., 8) if s > 0 and not n % 3 else POS[(n + 2 * len(par) + s) % 9])
            H = gm.Header(3, rosstub.Time(5), par)
            for m, a, b in ((gm.Transform(gm.Vector3(*pos), Q()), None, None), (gm.Pose(gm.Point(*pos), Q()), None, None),
                            (gm.TransformStamped(H, ch, gm.Transform(gm.Vector3(*pos), Q())), par, ch), (gm.PoseStamped(H, gm.Pose(gm.Point(*pos), Q())), par, None)):
                before = repr(m)
                tcheck(rm.msg2transform(m), R, pos, a, b, 'msg2transform of %r' % m)
                need(repr(m) == before, 'msg2transform modified the message')
                tick()


def k_int(p):
    for c in range(4):
        q = [0, 0, 0, 0]
        q[c] = p['s']
        R = np.diag([1., 1, 1]) if c == 3 else np.diag([1. if i == c else -1. for i in range(3)])
        for m in (gm.Transform(gm.Vector3(1, 2, 3), gm.Quaternion(*q)), gm.Pose(gm.Point(1, 2, 3), gm.Quaternion(*q))):
            tcheck(rm.msg2transform(m), R, (1, 2, 3), None, None, 'msg2transform of %r' % m)
            tick()


def k_refuse(p):
    other = [c() for c in rosstub.ALL if c.__name__ not in ('Transform', 'Pose', 'TransformStamped', 'PoseStamped')]
    for o in other + [None, 1, 1.5, 'pose', [], {}, (1, 2, 3), np.eye(4), np.zeros(3), rox.Transform(np.eye(3), np.zeros(3)), object(), dict(position=1, orientation=2), rosstub.Time(3), True]:
        try:
            x = rm.msg2transform(o)
        except Exception:
            tick()
            continue
        raise Bad('msg2transform accepted %r: %r' % (o, x))
    for f, bad in ((rm.q2msg, 3), (rm.q2msg, 5), (rm.p2msg, 2), (rm.p2msg, 4), (rm.p2point_msg, 4), (rm.p2point_msg, 1), (rm.twist2msg, 3), (rm.twist2msg, 7), (rm.wrench2msg, 5), (rm.wrench2msg, 9)):
        try:
            x = f(np.arange(bad) + 1.)
        except Exception:
            tick()
            continue
        raise Bad('%s accepted %d numbers: %r' % (f.__name__, bad, x))


KINDS = dict(vec=k_vec, quat=k_quat, six=k_six, rot=k_rot, msg=k_msg, int=k_int, refuse=k_refuse)
ANG = [0, 1e-12, 1e-9, 1e-6, 1e-3, .1, .7, PI / 2, 2, 2.7, 3.1, PI - 1e-3, PI - 1e-6, PI - 1e-8, PI - 1e-9, PI - 1e-12, PI]
ANG = ANG + [-a for a in ANG[3:13]]


def shards(tier):
    return [[tier, i] for i in range(24)]


def space(tier):
    n = 5 if tier == 'quick' else 7
    for x in V[:n]:
        yield 'six', dict(x=x, n=n)
    for x in V:
        yield 'vec', dict(x=x)
    for w in V[:5]:
        yield 'quat', dict(w=w)
    for m, ax in enumerate(ref.prim_axes(2)[:49] if tier == 'quick' else ref.prim_axes(3)[:145]):
        for k in range(16) if tier != 'quick' or m < 6 else [m % 16, (m * 5 + 3) % 16]:
            yield 'rot', dict(axis=list(ax), angles=ANG, names=k)
        yield 'msg', dict(axis=list(ax), angles=ANG[::4])
    yield 'int', dict(s=1)
    yield 'int', dict(s=-1)
    yield 'refuse', {}


def cases(sh):
    tier, i = sh
    for m, (k, p) in enumerate(space(tier)):
        if m % 24 == i:
            yield k, p
