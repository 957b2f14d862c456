"""Stand-ins for the ROS Python packages (geometry_msgs, rospy, tf, tf2_ros), which are not installed. Messages follow genpy: positional or
keyword construction of all fields, defaults, slots. The listener is the environment model of property C20."""
import inspect, math, sys, types
import numpy as np

FIELDS = {}


class Message(object):
    __slots__ = []
    _types = []

    def __init__(self, *args, **kw):
        if args and kw:
            raise TypeError('Message constructor may only use args OR keywords, not both')
        if args and len(args) != len(self.__slots__):
            raise TypeError('Invalid number of arguments, args should be %s args are %s' % (self.__slots__, args))
        for k in kw:
            if k not in self.__slots__:
                raise AttributeError('%s is not an attribute of %s' % (k, type(self).__name__))
        for i, (n, t) in enumerate(zip(self.__slots__, self._types)):
            v = args[i] if args else kw.get(n)
            if v is None:
                v = t() if isinstance(t, type) else t
            setattr(self, n, v)

    def __eq__(self, o):
        return type(o) is type(self) and all(getattr(self, n) == getattr(o, n) for n in self.__slots__)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join('%s=%r' % (n, getattr(self, n)) for n in self.__slots__))


def msgclass(name, **fields):
    return type(name, (Message,), dict(__slots__=list(fields), _types=list(fields.values()), _type='geometry_msgs/' + name))


class Time(object):
    def __init__(self, secs=0, nsecs=0):
        self.secs, self.nsecs = secs, nsecs

    def to_sec(self):
        return self.secs + self.nsecs * 1e-9

    def __eq__(self, o):
        return type(o) is type(self) and (self.secs, self.nsecs) == (o.secs, o.nsecs)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.secs, self.nsecs))

    def __repr__(self):
        return '%s(%r, %r)' % (type(self).__name__, self.secs, self.nsecs)


class Duration(Time):
    pass


Header = msgclass('Header', seq=0, stamp=Time, frame_id='')
Quaternion = msgclass('Quaternion', x=0., y=0., z=0., w=0.)
Point = msgclass('Point', x=0., y=0., z=0.)
Vector3 = msgclass('Vector3', x=0., y=0., z=0.)
Pose = msgclass('Pose', position=Point, orientation=Quaternion)
Transform = msgclass('Transform', translation=Vector3, rotation=Quaternion)
Twist = msgclass('Twist', linear=Vector3, angular=Vector3)
Wrench = msgclass('Wrench', force=Vector3, torque=Vector3)
TransformStamped = msgclass('TransformStamped', header=Header, child_frame_id='', transform=Transform)
PoseStamped = msgclass('PoseStamped', header=Header, pose=Pose)
PoseWithCovariance = msgclass('PoseWithCovariance', pose=Pose, covariance=list)
PoseWithCovarianceStamped = msgclass('PoseWithCovarianceStamped', header=Header, pose=PoseWithCovariance)
Odometry = msgclass('Odometry', header=Header, child_frame_id='', pose=PoseWithCovariance, twist=Twist)
TwistStamped = msgclass('TwistStamped', header=Header, twist=Twist)
WrenchStamped = msgclass('WrenchStamped', header=Header, wrench=Wrench)
PointStamped = msgclass('PointStamped', header=Header, point=Point)
ALL = (Header, Quaternion, Point, Vector3, Pose, Transform, Twist, Wrench, TransformStamped, PoseStamped, PoseWithCovariance, PoseWithCovarianceStamped, Odometry, TwistStamped, WrenchStamped, PointStamped)


class TransformException(Exception):
    pass


class ConnectivityException(TransformException):
    pass


class LookupException(TransformException):
    pass


class ExtrapolationException(TransformException):
    pass


class InvalidArgumentException(TransformException):
    pass


class TimeoutException(TransformException):
    pass


class Listener(object):
    """Environment: a transform buffer. Each edge (child -> parent) holds poses stamped with whole seconds, answers are exact at stored stamps and
    at Time(0) (latest common stamp). sign: which of the two quaternions is returned; cont: list or tuple results. Every request is recorded."""
    made = []

    def __init__(self, *args, **kw):
        self.init_args = (args, kw)
        self.calls = []
        self.buf = {}
        self.sign, self.cont, self.answers, self.raises = 1, list, {}, {}
        Listener.made.append(self)

    # -- buffer
    def setTransform(self, msg, authority='default'):
        p, c = msg.header.frame_id, msg.child_frame_id
        t = msg.transform
        self.buf.setdefault(c, (p, {}))
        if self.buf[c][0] != p:
            self.buf[c] = (p, {})
        q = np.array([t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z], dtype=float)
        self.buf[c][1][msg.header.stamp.secs] = (q, np.array([t.translation.x, t.translation.y, t.translation.z], dtype=float))

    def _rec(self, name, *a):
        self.calls.append((name,) + a)
        if name in self.raises:
            raise self.raises[name]

    def _chain(self, f):
        out = [f]
        while f in self.buf:
            f = self.buf[f][0]
            out.append(f)
        return out

    def _known(self, f):
        return f in self.buf or any(p == f for p, _ in self.buf.values())

    def _edges(self, f, root):
        ch = self._chain(f)
        return ch[:ch.index(root)]

    def _root(self, a, b):
        for f in (a, b):
            if not self._known(f):
                raise LookupException('frame %s does not exist' % f)
        cb = self._chain(b)
        for f in self._chain(a):
            if f in cb:
                return f
        raise ConnectivityException('%s and %s are not connected' % (a, b))

    def _pose(self, f, root, t):
        """(q, p) of frame f in frame root at time t."""
        q, p = np.array([1., 0, 0, 0]), np.zeros(3)
        for e in self._edges(f, root):
            S = self.buf[e][1]
            if t not in S:
                raise ExtrapolationException('no transform of %s at %s' % (e, t))
            eq, ep = S[t]
            q, p = _qmul(eq, q), _qrot(eq, p) + ep
        return q, p

    def _latest(self, a, b):
        r = self._root(a, b)
        E = self._edges(a, r) + self._edges(b, r)
        common = None
        for e in E:
            s = set(self.buf[e][1])
            common = s if common is None else common & s
        if common is None:
            return 0
        if not common:
            raise ExtrapolationException('no common time')
        return max(common)

    def _lookup(self, tf, tt, sf, st, ff):
        if ff is None:
            r = self._root(tf, sf)
            t = tt.secs or self._latest(tf, sf)
            A, B = self._pose(tf, r, t), self._pose(sf, r, t)
            q, p = _mul(_inv(A), B)
        else:
            r1, r2 = self._root(tf, ff), self._root(sf, ff)
            t1, t2 = tt.secs or self._latest(tf, ff), st.secs or self._latest(sf, ff)
            A = _mul(_inv(self._pose(tf, r1, t1)), self._pose(ff, r1, t1))
            B = _mul(_inv(self._pose(ff, r2, t2)), self._pose(sf, r2, t2))
            q, p = _mul(A, B)
        q = q * self.sign
        return self.cont([float(x) for x in p]), self.cont([float(q[1]), float(q[2]), float(q[3]), float(q[0])])

    def _can(self, *a):
        try:
            self._lookup(*a)
            return True
        except TransformException:
            return False

    # -- the interface of tf.TransformListener
    def lookupTransform(self, target_frame, source_frame, time):
        self._rec('lookupTransform', target_frame, source_frame, time)
        return self._lookup(target_frame, time, source_frame, time, None)

    def lookupTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        self._rec('lookupTransformFull', target_frame, target_time, source_frame, source_time, fixed_frame)
        return self._lookup(target_frame, target_time, source_frame, source_time, fixed_frame)

    def canTransform(self, target_frame, source_frame, time):
        self._rec('canTransform', target_frame, source_frame, time)
        return self._can(target_frame, time, source_frame, time, None)

    def canTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        self._rec('canTransformFull', target_frame, target_time, source_frame, source_time, fixed_frame)
        return self._can(target_frame, target_time, source_frame, source_time, fixed_frame)

    def waitForTransform(self, target_frame, source_frame, time, timeout, polling_sleep_duration=None):
        self._rec('waitForTransform', target_frame, source_frame, time, timeout, polling_sleep_duration)
        self._lookup(target_frame, time, source_frame, time, None)

    def waitForTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame, timeout, polling_sleep_duration=None):
        self._rec('waitForTransformFull', target_frame, target_time, source_frame, source_time, fixed_frame, timeout, polling_sleep_duration)
        self._lookup(target_frame, target_time, source_frame, source_time, fixed_frame)

    def clear(self):
        self._rec('clear')
        self.buf = {}


def _qmul(a, b):
    return np.array([a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
                     a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]])


def _qrot(q, v):
    return _qmul(_qmul(q, np.array([0., v[0], v[1], v[2]])), np.array([q[0], -q[1], -q[2], -q[3]]))[1:]


def _inv(X):
    q = np.array([X[0][0], -X[0][1], -X[0][2], -X[0][3]])
    return q, -_qrot(q, X[1])


def _mul(A, B):
    return _qmul(A[0], B[0]), _qrot(A[0], B[1]) + A[1]


def install():
    """Puts the stand-ins into sys.modules (only in this process)."""
    if getattr(sys.modules.get('geometry_msgs'), '_stub', False):
        return

    def mod(name, **kw):
        m = types.ModuleType(name)
        m._stub = True
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    g = mod('geometry_msgs.msg', **{c.__name__: c for c in ALL})
    mod('geometry_msgs', msg=g, __path__=[])
    mod('rospy', Time=Time, Duration=Duration)
    mod('tf', TransformListener=Listener, Exception=TransformException, LookupException=LookupException)
    mod('tf2_ros', TransformException=TransformException, ConnectivityException=ConnectivityException, LookupException=LookupException, ExtrapolationException=ExtrapolationException,
        InvalidArgumentException=InvalidArgumentException, TimeoutException=TimeoutException)
