"""ROS transform listener: every history of received transforms and clears up to a depth, with every lookup at every prefix, against a matrix tree model; request forwarding."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots, rosstub
from mc.core import need, tick, note, state, Bad

rosstub.install()
import rospy, tf2_ros
from geometry_msgs import msg as gm
from general_robotics_toolbox import ros_tf

ID = 'C20'
PI = math.pi
BOUNDS = {'quick': 'frames world, a, b (below a), c, and the separate pair x, y; every history of up to 3 events from {receive one of 4 edges at stamp 1 or 2 with one of 2 poses, clear} (17^3), and of up to 5 events with '
                   'the pose fixed by the edge and stamp over 2 edges and clear (5^5), each with all lookups at every prefix and with lookups only at the end; lookups: all 49 ordered frame pairs (one unknown) x time 0/1/2, and '
                   'full lookups for all ordered pairs of 4 frames x 4 time pairs x 2 fixed frames at the end of each history; both quaternion signs and list or tuple answers; two listeners interleaved; 21 rotations to 1e-12 '
                   'of a half turn; every request kind with default, positional and keyword arguments, sentinel answers and all 6 exception types, for 22 triples of frame names that must reach the listener and the result unchanged (leading slash, empty, blanks, case, non-ASCII, target equal to source)',
          'thorough': 'histories of 4 events (17^4) and 6 events (5^6)'}
ASSUME = ['ROS is not installed: tf.TransformListener is a stand-in implementing a time-stamped transform buffer and recording every request', 'rotations arrive as unit quaternions of either sign',
          'agreement within 1e-9; interpolation between stamps is left to tf itself']
EDGES = [('world', 'a'), ('a', 'b'), ('world', 'c'), ('x', 'y')]
FR = ['world', 'a', 'b', 'c', 'x', 'y', 'nowhere']
AL = [((1, 2, 3), .7, (.3, -.2, .5)), ((0, 0, 1), PI / 2, (0, 1., 0)), ((1, 0, 0), PI, (1., 2., 3.)), ((1, 1, 1), -2.1, (-4., .001, 7.)), ((0, 1, 0), 0., (.1, 0, -.2)), ((-1, 2, 5), 3.1, (1e-4, 20., -5.)),
      ((1, -1, 0), -1e-5, (0, 1, 0)), ((2, 0, 1), 1.2, (-.6, -.6, -.6))]


def pose(k):
    a, t, p = AL[k % len(AL)]
    return ref.hom(ref.rotm(ref.unit(a), t), p), ref.aa2q(ref.unit(a), t), p


def msg(parent, child, stamp, k):
    _, q, p = pose(k)
    return gm.TransformStamped(gm.Header(0, rospy.Time(stamp), parent), child, gm.Transform(gm.Vector3(*map(float, p)), gm.Quaternion(q[1], q[2], q[3], q[0])))


class Tree(object):
    """The model: child -> (parent, stamp -> matrix)."""
    def __init__(self):
        self.e = {}

    def put(self, p, c, st, M):
        if c not in self.e or self.e[c][0] != p:
            self.e[c] = (p, {})
        self.e[c][1][st] = M

    def up(self, f):
        out = [f]
        while out[-1] in self.e:
            out.append(self.e[out[-1]][0])
        return out

    def known(self, f):
        return f in self.e or f in [p for p, _ in self.e.values()]

    def path(self, a, b):
        """Edges from a and from b to their meeting frame, or None."""
        if not (self.known(a) and self.known(b)):
            return None
        ua, ub = self.up(a), self.up(b)
        r = [f for f in ua if f in ub]
        if not r:
            return None
        return ua[:ua.index(r[0])], ub[:ub.index(r[0])]

    def look(self, a, b, t):
        """Pose of b in a, or None."""
        p = self.path(a, b)
        if p is None:
            return None
        if t == 0:
            st = [set(self.e[f][1]) for f in p[0] + p[1]]
            if st:
                c = set.intersection(*st)
                if not c:
                    return None
                t = max(c)
        M = []
        for side in p:
            H = np.eye(4)
            for f in side:
                if t not in self.e[f][1]:
                    return None
                H = self.e[f][1][t] @ H
            M.append(H)
        return ref.hinv(M[0]) @ M[1]

    def full(self, a, ta, b, tb, fixed):
        A, B = self.look(a, fixed, ta), self.look(fixed, b, tb)
        return None if A is None or B is None else A @ B


def judge(f, want, tf, sf, what):
    try:
        T = f()
    except tf2_ros.TransformException as e:
        need(want is None, '%s raised %s: %s, expected\n%s', what, type(e).__name__, e, want)
        tick()
        return
    need(want is not None, '%s gave\n%s\nwhere the tree has no path', what, T)
    need(isinstance(T, rox.Transform), '%s gave %r', what, T)
    need(np.shape(T.R) == (3, 3) and np.shape(T.p) == (3,), '%s: shapes', what)
    need(np.max(np.abs(T.R - want[:3, :3])) < 1e-9 and np.max(np.abs(T.p - want[:3, 3])) < 1e-9 * max(1, np.max(np.abs(want[:3, 3]))), '%s gave\n%s\nexpected\n%s', what, robots.toH(T), want)
    need((T.parent_frame_id, T.child_frame_id) == (tf, sf), '%s is labelled parent %r child %r', what, T.parent_frame_id, T.child_frame_id)
    tick()


def lookups(l, m, h, full):
    for a, b in itertools.product(FR, repeat=2):
        for t in (0, 1, 2):
            w = m.look(a, b, t)
            judge(lambda: l.lookupTransform(a, b, rospy.Time(t)), w, a, b, 'after %s: lookup of %s in %s at %d' % (h, b, a, t))
        w = m.look(a, b, 0)
        if a != b:
            judge(lambda: l.lookupTransform(a, b), w, a, b, 'after %s: lookup of %s in %s' % (h, b, a))
        can = l.canTransform(a, b)
        need(bool(can) == (w is not None), 'after %s: canTransform(%s, %s) is %s', h, a, b, can)
        tick()
    if full:
        for a, b in itertools.product(FR[:4], repeat=2):
            for ta, tb in ((1, 2), (2, 1), (0, 1), (2, 2)):
                for fx in ('world', 'a'):
                    w = m.full(a, ta, b, tb, fx)
                    judge(lambda: l.lookupTransformFull(a, rospy.Time(ta), b, rospy.Time(tb), fx), w, a, b, 'after %s: full lookup of %s at %d in %s at %d over %s' % (h, b, tb, a, ta, fx))
                    can = l.canTransformFull(a, rospy.Time(ta), b, rospy.Time(tb), fx)
                    need(bool(can) == (w is not None), 'after %s: canTransformFull(%s, %d, %s, %d, %s) is %s', h, a, ta, b, tb, fx, can)
                    tick()


def ops(alpha):
    if alpha == 'wide':
        return [[e, st, k] for e in range(4) for st in (1, 2) for k in (0, 1)] + ['clear']
    return [[e, st, 0] for e in range(2) for st in (1, 2)] + ['clear']


def apply(l, m, op, step):
    if op == 'clear':
        need(l.clear() is None or True, '')
        m.e = {}
    else:
        e, st, k = op
        n = e * 3 + st * 2 + k + (step if k == 0 else 0)
        l.ros_listener.setTransform(msg(EDGES[e][0], EDGES[e][1], st, n))
        m.put(EDGES[e][0], EDGES[e][1], st, pose(n)[0])


def k_hist(p):
    O = ops(p['alpha'])
    for tail in itertools.product(range(len(O)), repeat=p['depth'] - len(p['first'])):
        h = [O[k] for k in list(p['first']) + list(tail)]
        for eager in (True, False):
            if eager and p['alpha'] != 'wide' and len(h) > 3 and h[-1] == 'clear':
                continue
            l = ros_tf.TransformListener()
            l.ros_listener.sign = -1 if sum(tail) % 2 else 1
            l.ros_listener.cont = tuple if sum(tail) % 3 == 0 else list
            m = Tree()
            for s, op in enumerate(h):
                apply(l, m, op, s)
                if eager or s == len(h) - 1:
                    if eager and s < len(h) - 1:
                        for a, b in (('world', 'a'), ('b', 'world'), ('c', 'b'), ('x', 'y'), ('a', 'world')):
                            judge(lambda: l.lookupTransform(a, b), m.look(a, b, 0), a, b, 'after %s: lookup of %s in %s' % (h[:s + 1], b, a))
                    else:
                        lookups(l, m, h[:s + 1], p['full'] and not eager)
            state([p['alpha'], h, eager])


def k_two(p):
    """Two listeners interleaved: each answers from its own buffer."""
    A, B = ros_tf.TransformListener(), ros_tf.TransformListener()
    MA, MB = Tree(), Tree()
    O = ops('wide')
    for s, k in enumerate(p['hist']):
        for l, m, j in ((A, MA, k), (B, MB, (k * 5 + s) % len(O))):
            apply(l, m, O[j], s)
        for a, b in (('world', 'a'), ('b', 'world'), ('c', 'b'), ('x', 'y')):
            for l, m, n in ((A, MA, 'first'), (B, MB, 'second'), (A, MA, 'first')):
                judge(lambda: l.lookupTransform(a, b), m.look(a, b, 0), a, b, '%s listener: lookup of %s in %s after %s' % (n, b, a, p['hist'][:s + 1]))


def k_rot(p):
    k = ref.unit(p['axis'])
    for th in [0, 1e-12, 1e-7, .1, 1., PI / 2, 3., PI - 1e-4, PI - 1e-8, PI - 1e-12, PI, -.1, -PI / 2, -3.1, 4., 6.2, 2 * PI, -PI, 1e-4, 2.5, -2]:
        for sg in (1, -1):
            q = ref.aa2q(k, th) * sg
            l = ros_tf.TransformListener()
            l.ros_listener.setTransform(gm.TransformStamped(gm.Header(0, rospy.Time(1), 'p'), 'q', gm.Transform(gm.Vector3(1., 2., 3.), gm.Quaternion(q[1], q[2], q[3], q[0]))))
            M = ref.hom(ref.rotm(k, th), (1., 2., 3.))
            judge(lambda: l.lookupTransform('p', 'q'), M, 'p', 'q', 'rotation %.17g about %s' % (th, k))
            judge(lambda: l.lookupTransform('q', 'p'), ref.hinv(M), 'q', 'p', 'inverse of rotation %.17g about %s' % (th, k))
            judge(lambda: l.lookupTransformFull('q', rospy.Time(1), 'p', rospy.Time(1), 'p'), ref.hinv(M), 'q', 'p', 'inverse of rotation %.17g about %s' % (th, k))


NAMES = ['TF', '/a', '', 'a/b', ' a ', 'gr\u00f6\u00dfe', 'World', 'world', '//', 'a', '0']


class Sent(object):
    pass


T0, T1, T2, D1, D2 = rospy.Time(0), rospy.Time(3, 250), rospy.Time(8, 1), rospy.Duration(5), rospy.Duration(0, 125)
REQ = [('canTransform', ['TF', 'SF'], [T1], [T0], 'target_frame source_frame time'), ('lookupTransform', ['TF', 'SF'], [T1], [T0], 'target_frame source_frame time'),
       ('canTransformFull', ['TF', T1, 'SF', T2, 'FF'], [], [], 'target_frame target_time source_frame source_time fixed_frame'),
       ('lookupTransformFull', ['TF', T1, 'SF', T2, 'FF'], [], [], 'target_frame target_time source_frame source_time fixed_frame'),
       ('waitForTransform', ['TF', 'SF', T1, D1], [D2], [None], 'target_frame source_frame time timeout polling_sleep_duration'),
       ('waitForTransformFull', ['TF', T1, 'SF', T2, 'FF', D1], [D2], [None], 'target_frame target_time source_frame source_time fixed_frame timeout polling_sleep_duration'), ('clear', [], [], [], '')]


class Probe(rosstub.Listener):
    answer = None

    def _ans(self, name, *a):
        self.calls.append((name,) + a)
        if name in self.raises:
            raise self.raises[name]
        return Probe.answer

    def lookupTransform(self, target_frame, source_frame, time):
        return self._ans('lookupTransform', target_frame, source_frame, time)

    def lookupTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        return self._ans('lookupTransformFull', target_frame, target_time, source_frame, source_time, fixed_frame)

    def canTransform(self, target_frame, source_frame, time):
        return self._ans('canTransform', target_frame, source_frame, time)

    def canTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        return self._ans('canTransformFull', target_frame, target_time, source_frame, source_time, fixed_frame)

    def waitForTransform(self, target_frame, source_frame, time, timeout, polling_sleep_duration=None):
        return self._ans('waitForTransform', target_frame, source_frame, time, timeout, polling_sleep_duration)

    def waitForTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame, timeout, polling_sleep_duration=None):
        return self._ans('waitForTransformFull', target_frame, target_time, source_frame, source_time, fixed_frame, timeout, polling_sleep_duration)

    def clear(self):
        return self._ans('clear')


def k_fwd(p):
    name, base, extra, dflt, argn = REQ[p['req']]
    nm = dict(TF=p['names'][0], SF=p['names'][1], FF=p['names'][2])
    base = [nm[x] if isinstance(x, str) else x for x in base]
    argn = argn.split()
    l = ros_tf.TransformListener()
    l.ros_listener = pr = Probe()
    look = name.startswith('lookup')
    answers = [((1., 2., 3.), (0., 0., .6, .8)), ([4., 5., 6.], [.5, .5, -.5, .5])] if look else [True, False, None, Sent()]
    forms = []
    for a, full in ([(base, base + dflt)] if extra else []) + [(base + extra, base + extra)]:
        forms.append((a, {}, full))
        forms.append(([], dict(zip(argn, a)), full))
        for k in range(1, len(a)):
            forms.append((a[:k], dict(list(zip(argn, a))[k:]), full))
    for ans in answers:
        for a, kw, full in forms:
            Probe.answer = ans
            del pr.calls[:]
            r = getattr(l, name)(*a, **kw)
            need(pr.calls == [(name,) + tuple(full)], '%s%s %s reached the listener as %s, expected %s', name, tuple(a), kw, pr.calls, [(name,) + tuple(full)])
            if look:
                q = np.array(ans[1])
                need(isinstance(r, rox.Transform) and np.max(np.abs(r.R - ref.q2m([q[3], q[0], q[1], q[2]]))) < 1e-12 and np.array_equal(r.p, ans[0]) and (r.parent_frame_id, r.child_frame_id) == (nm['TF'], nm['SF']),
                     '%s gave %r for the answer %s', name, r, ans)
            elif name.startswith('can'):
                need(r is ans, '%s returned %r, the listener said %r', name, r, ans)
            tick()
    for E in (tf2_ros.TransformException, tf2_ros.LookupException, tf2_ros.ConnectivityException, tf2_ros.ExtrapolationException, tf2_ros.TimeoutException, ValueError):
        e = E('no')
        pr.raises = {name: e}
        try:
            getattr(l, name)(*(base + extra))
        except E as x:
            need(type(x) is E, '%s raised %r for %r', name, x, e)
        else:
            raise Bad('%s did not raise %s' % (name, E.__name__))
        tick()
    pr.raises = {}


def k_init(p):
    for a, kw in (((), {}), ((rospy.Duration(10),), {}), ((True, rospy.Duration(3)), {}), ((), dict(interpolate=False, cache_time=rospy.Duration(2))), ((1,), dict(cache_time=D1))):
        n = len(rosstub.Listener.made)
        l = ros_tf.TransformListener(*a, **kw)
        need(len(rosstub.Listener.made) == n + 1 and l.ros_listener is rosstub.Listener.made[-1], 'the constructor made %d listeners', len(rosstub.Listener.made) - n)
        need(l.ros_listener.init_args == (a, kw), 'constructor arguments reached the listener as %s, expected %s', l.ros_listener.init_args, (a, kw))
        tick()
    for n in ('Exception', 'ConnectivityException', 'LookupException', 'ExtrapolationException'):
        need(getattr(ros_tf, n) is getattr(tf2_ros, 'TransformException' if n == 'Exception' else n), 'ros_tf.%s', n)
    # waiting: raises when there is no transform, returns when there is
    l = ros_tf.TransformListener()
    for rnd in range(2):
        for f in (lambda: l.waitForTransform('world', 'a', T0, D1), lambda: l.waitForTransformFull('world', T0, 'a', T0, 'world', D1)):
            try:
                f()
                ok = True
            except tf2_ros.TransformException:
                ok = False
            need(ok == bool(rnd), 'waiting %s', 'failed' if rnd else 'succeeded without a transform')
            tick()
        l.ros_listener.setTransform(msg('world', 'a', 1, 0))


KINDS = dict(hist=k_hist, two=k_two, rot=k_rot, fwd=k_fwd, init=k_init)


def shards(tier):
    return [[tier, i] for i in range(32)]


def space(tier):
    d = 3 if tier == 'quick' else 4
    for f in itertools.product(range(17), repeat=d - 1):
        yield 'hist', dict(alpha='wide', depth=d, first=list(f), full=True)
    for n in (1, 2):
        yield 'hist', dict(alpha='wide', depth=n, first=[], full=True)
    e = 5 if tier == 'quick' else 6
    for f in itertools.product(range(5), repeat=e - 2):
        yield 'hist', dict(alpha='narrow', depth=e, first=list(f), full=False)
    for k in range(17):
        for j in range(17):
            yield 'two', dict(hist=[k, j, (k + 3 * j) % 17, (j + 1) % 17])
    for ax in ref.prim_axes(2)[:49]:
        yield 'rot', dict(axis=list(ax))
    for r in range(len(REQ)):
        for m, f in enumerate(NAMES):
            yield 'fwd', dict(req=r, names=[f, NAMES[(m + 1) % len(NAMES)], NAMES[(m + 3) % len(NAMES)]])
            yield 'fwd', dict(req=r, names=[f, f, NAMES[(m + 1) % len(NAMES)]])
    yield 'init', {}


def cases(sh):
    tier, i = sh
    for m, (k, p) in enumerate(space(tier)):
        if m % 32 == i:
            yield k, p
