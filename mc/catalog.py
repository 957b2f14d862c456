"""Catalogue of library calls over a pool of named argument objects (used by the history and the concurrency properties)."""
import copy, io, json, math, os, random, sys, warnings
import numpy as np
import general_robotics_toolbox as rox
from general_robotics_toolbox import general_robotics_toolbox_invkin as ik
from . import ref, robots

PI = math.pi


def _lim(s, lo, hi):
    n = len(s['type'])
    return dict(s, lower=[lo] * n, upper=[hi] * n)


def robot_spec(name):
    return {
        'abb': lambda: robots.abb(),
        'abb_aux': lambda: robots.aux(robots.abb(), 7),
        'puma': lambda: robots.puma(),
        'puma_lim': lambda: robots.aux(_lim(robots.puma(), -4.0, 4.5), 4),
        'ur5': lambda: _lim(robots.ur(*robots.UR5E), -6.3, 6.3),
        'ur10_aux': lambda: robots.aux(_lim(robots.ur(*robots.UR10, sg=1), -6.0, 6.2), 5),
        'scara': lambda: robots.aux(dict(robots.scara(), lower=[-3., -2.5, -.4, -6.], upper=[3., 2.5, .4, 6.]), 2),
        'sawyer': lambda: robots.aux(robots.sawyer(), 1),
        'ppr': lambda: dict(robots.generic(3, [1, 1, 0]), lower=[-1., -2., -3.], upper=[1., 2., 3.]),
        'mobile': lambda: robots.aux(dict(type=[3, 3, 2, 0], H=[[1., 0, 0], [0, 1., 0], [0, 0, 1.], [0, 1., 0]], P=[[.1, .2, 0], [0, 0, .1], [.1, 0, .3], [0, .2, .1], [.3, 0, .2]]), 4),
        'gen3': lambda: robots.generic(3, [0, 1, 0]),
        'wide': lambda: dict(robots.generic(3, [0, 1, 0]), lower=[-7., -1., -10.], upper=[7., 1., 10.]),
    }[name]()


def morph_spec(name):
    """Another robot of the same layout: what a caller may turn the robot into."""
    s = copy.deepcopy(robot_spec(name))
    s['P'] = [[1.25 * x for x in v] for v in s['P']]
    if s.get('lower') is not None:
        s['lower'], s['upper'] = [x * .9 for x in s['lower']], [x * 1.1 for x in s['upper']]
    s['base'] = robots.BASE2 if s.get('base') else None
    s['tool'] = robots.TOOL2 if s.get('tool') else None
    return s


def morph(r, name):
    """Changes an existing robot, in place, into morph_spec(name)."""
    n = robots.build(morph_spec(name))
    r.P[:, :] = n.P
    if r.joint_lower_limit is not None:
        r.joint_lower_limit[:] = n.joint_lower_limit
        r.joint_upper_limit[:] = n.joint_upper_limit
    r.T_base = n.T_base
    r.R_tool, r.p_tool = n.R_tool, n.p_tool


POSES = {'puma': [.3, -.2, .4, .5, .6, -.7], 'abb': [-.5, .3, -.2, 1.1, -.8, 2.], 'ur5': [.3, -.8, 1.2, .5, .6, -.7], 'scara': [.5, -.7, .15, 1.], 'sawyer': [.2, -.3, .4, .9, -.2, .5, .1], 'gen3': [.4, -.2, .3], 'ppr': [.4, -.2, .3], 'mobile': [.4, -.2, .3, .7],
         'wide': [.4, .5, -2.]}


def q_of(name):
    return POSES[{'abb_aux': 'abb', 'puma_lim': 'puma', 'ur10_aux': 'ur5'}.get(name, name)]


A = lambda *x: np.array(x, dtype=float)
U = lambda *x: ref.unit(x)


def pool(key, morphed=()):
    """A fresh object for a pool key."""
    k, _, a = key.partition(':')
    if k == 'robot':
        return robots.build(morph_spec(a) if key in morphed else robot_spec(a))
    if k == 'q':
        return A(*q_of(a))
    if k == 'q2':
        return A(*[x * .8 + .05 for x in q_of(a)])
    if k == 'qn':
        return A(*[x + .001 * (-1) ** i for i, x in enumerate(q_of(a))])
    if k == 'qlow':
        return A(*[x * .8 - 20 for x in q_of(a)])
    if k == 'qint':
        return A(*[float(i % 2) for i in range(len(q_of(a)))])
    if k == 'pose':
        s = morph_spec(a) if 'robot:' + a in morphed else robot_spec(a)
        return robots.TH(ref.fk(s, q_of(a)))
    if k == 'far':
        return rox.Transform(np.eye(3), A(50, 3, 4))
    if k == 'qlist':
        return [A(*q_of(a)), A(*[x * .5 for x in q_of(a)])]
    if k == 'T1':
        return robots.T(robots.BASE, 'world', 'link')
    if k == 'T2':
        return robots.T(robots.TOOL, 'link', 'tool')
    if k == 'T3':
        return rox.Transform(np.array([[0., 1, 0], [0, 0, 1], [1, 0, 0]]), A(1, 2, 3))
    if k == 'R':
        return ref.rotm(U(1, 2, 3), {'a': .7, 'b': PI, 'c': 0., 'd': 3.0, 'e': -PI / 2}[a])
    if k == 'quat':
        return np.array(ref.aa2q(U(1, -2, 3), {'a': .7, 'b': PI, 'c': 0., 'd': 5.0}[a])) * (1 if a != 'd' else -1)
    if k == 'v':
        return {'z': A(0, 0, 1), 'y': A(0, 1, 0), 'o': U(1, 2, -2), 'p': A(.3, -.2, .5), 'r': A(1, 2, 3), 'x': A(2, 0, 0), 'g': ref.rotm((0., 0., 1.), 1.1) @ A(.3, -.2, .5),
                'h': ref.rotm((0., 0., 1.), .4) @ ref.rotm((0., 1., 0.), -.9) @ A(.3, -.2, .5), 'rpy': A(.4, -1.1, 2.3), 'rpy2': A(0, 1, 2), 'y2': A(0, 2, 0)}[a].copy()
    if k == 'K':
        return ref.rotm(U(1, 0, 0), 0.) * float(a)
    if k == 's':
        return float(a)
    if k == 'i':
        return int(a)
    if k == 'str':
        return a
    if k == 'hat':
        return np.array([[0., -3, 2], [3, 0, -1], [-2, 1, 0]])
    if k == 'six':
        return A(1, 2, 3, -4, 5, -6)
    if k == 'yaml':
        return copy.deepcopy(YAML[a])
    if k == 'urdf':
        return URDF
    if k == 'msg':
        from . import rosstub as rs
        Q = rs.Quaternion(.1, .2, -.3, math.sqrt(1 - .14))
        return {'Transform': lambda: rs.Transform(rs.Vector3(1, 2, 3), Q), 'Pose': lambda: rs.Pose(rs.Point(1, 2, 3), Q), 'PoseStamped': lambda: rs.PoseStamped(rs.Header(1, rs.Time(2), 'w'), rs.Pose(rs.Point(1, 2, 3), Q)),
                'TransformStamped': lambda: rs.TransformStamped(rs.Header(1, rs.Time(2), 'w'), 'c', rs.Transform(rs.Vector3(1, 2, 3), Q)), 'Twist': lambda: rs.Twist(rs.Vector3(1, 2, 3), rs.Vector3(4, 5, 6))}[a]()
    raise KeyError(key)


def _yaml():
    v = lambda x, y, z: dict(x=x, y=y, z=z)
    q = lambda w, x, y, z: dict(w=w, x=x, y=y, z=z)
    ch = lambda n, nums: dict(kin_chain_identifier=n, H=[v(0, 0, 1), v(0, 1, 0)], P=[v(0, 0, .5), v(.1, 0, .2), v(0, .3, 0)], joint_numbers=nums, flange_identifier='fl', flange_pose=dict(orientation=q(.6, 0, .8, 0), position=v(0, 0, .1)))
    r = dict(device_info=dict(device=dict(name='dev')), joint_info=[dict(joint_identifier='j%d' % i, joint_type=('revolute', 'prismatic', 'revolute')[i], joint_limits=dict(lower=-1 - i, upper=2 + i, velocity=1, acceleration=3)) for i in range(3)],
             chains=[ch('c0', [0, 1]), ch('c1', [1, 2])])
    t = dict(device_info=dict(device=dict(name='tool')), tcp=dict(orientation=q(0.6, 0, 0, 0.8), position=v(0, 0, .15)))
    return dict(robot=r, tool=t)


YAML = _yaml()
URDF = """<robot name="r"><link name="w"/><link name="a"/><link name="b"/><link name="t"/>
<joint name="j1" type="revolute"><parent link="w"/><child link="a"/><origin xyz=".1 0 .3" rpy=".4 0 -1"/><axis xyz="0 0 1"/><limit lower="-1" upper="2" effort="1" velocity="1"/></joint>
<joint name="f" type="fixed"><parent link="a"/><child link="b"/><origin xyz="0 .2 .3" rpy="0 1 0"/></joint>
<joint name="j2" type="prismatic"><parent link="b"/><child link="t"/><origin xyz="0 0 .1"/><axis xyz="1 0 0"/><limit lower="-1" upper="2" effort="1" velocity="1"/></joint></robot>"""


def _mk_ops():
    O = {}

    def op(name, f, *variants):
        for i, v in enumerate(variants):
            O['%s/%d' % (name, i)] = (f, v.split() if isinstance(v, str) else list(v))
    op('hat', rox.hat, 'v:p')
    op('invhat', rox.invhat, 'hat:')
    op('rot', rox.rot, 'v:z s:0.7', 'v:o s:-2.5')
    op('R2rot', rox.R2rot, 'R:a', 'R:b', 'R:c', 'R:d')
    op('screw_matrix', rox.screw_matrix, 'v:p')
    op('q2R', rox.q2R, 'quat:a', 'quat:d')
    op('R2q', rox.R2q, 'R:a', 'R:b', 'R:c', 'R:d')
    op('q2rot', rox.q2rot, 'quat:a', 'quat:c', 'quat:b')
    op('rot2q', rox.rot2q, 'v:o s:1.5')
    op('quatcomplement', rox.quatcomplement, 'quat:a')
    op('quatproduct', rox.quatproduct, 'quat:a')
    op('quatjacobian', rox.quatjacobian, 'quat:a')
    op('rpy2R', rox.rpy2R, 'v:rpy', 'v:rpy2')
    op('R2rpy', rox.R2rpy, 'R:a', 'R:e')
    op('slerp', rox.slerp, 'quat:a quat:b s:0.3', 'quat:a quat:d s:0', 'quat:a quat:a s:1', 'quat:c quat:d s:2')
    op('Transform', lambda R, p: rox.Transform(R, p), 'R:a v:p')
    op('mul', lambda a, b: a * b, 'T1: T2:', 'T2: T1:', 'T3: T3:')
    op('inv', lambda a: a.inv(), 'T1:', 'T3:')
    op('eq', lambda a, b: (a == b, a != b, a.isclose(b), a.isclose(a, 1e-9)), 'T1: T2:', 'T3: T3:')
    op('str', lambda a: (str(a), repr(a)), 'T1:', 'T3:')
    op('identity', rox.identity_transform, '')
    op('fwdkin', rox.fwdkin, 'robot:abb q:abb', 'robot:abb_aux q:abb', 'robot:scara q:scara', 'robot:gen3 q:gen3', 'robot:abb_aux q2:abb', 'robot:abb qlow:abb', 'robot:ppr q:ppr', 'robot:mobile q:mobile')
    op('jac', rox.robotjacobian, 'robot:abb q:abb', 'robot:abb_aux q:abb', 'robot:scara q:scara', 'robot:sawyer q:sawyer', 'robot:abb qlow:abb', 'robot:ppr q:ppr', 'robot:mobile q:mobile')
    op('sub0', rox.subproblem0, 'v:x v:y2 v:z', 'v:x v:p v:z')
    op('sub1', rox.subproblem1, 'v:p v:g v:z')
    op('sub2', rox.subproblem2, 'v:p v:h v:z v:y', 'v:p v:g v:z v:z')
    op('sub3', rox.subproblem3, 'v:p v:r v:z s:3.5', 'v:p v:r v:z s:40')
    op('sub4', rox.subproblem4, 'v:r v:p v:z s:0.6', 'v:r v:p v:o s:0.3', 'v:r v:p v:z s:40')
    op('apply', rox.apply_robot_aux_transforms, 'robot:abb_aux T1:', 'robot:puma T1:', 'robot:ur10_aux T3:')
    op('unapply', rox.unapply_robot_aux_transforms, 'robot:abb_aux T1:', 'robot:puma T1:')
    op('sphik', rox.robot6_sphericalwrist_invkin, 'robot:puma pose:puma', 'robot:abb_aux pose:abb_aux', 'robot:abb_aux pose:abb_aux q2:abb', 'robot:puma_lim pose:puma_lim q:puma', 'robot:abb far:', 'robot:abb pose:abb')
    op('urik', rox.ur_invkin, 'robot:ur5 pose:ur5', 'robot:ur10_aux pose:ur10_aux', 'robot:ur10_aux pose:ur10_aux q2:ur5', 'robot:ur5 pose:ur5 q:ur5', 'robot:ur5 far:')
    op('equiv', rox.equivalent_configurations, 'robot:wide qlist:wide', 'robot:wide qlist:wide q:wide', 'robot:puma_lim qlist:puma', 'robot:wide qlist:gen3 qint:gen3')
    op('iter', rox.iterative_invkin, 'robot:abb pose:abb qn:abb', 'robot:scara pose:scara q2:scara i:8', 'robot:abb far: q:abb i:5', 'robot:gen3 pose:gen3 q2:gen3 i:8 K:0.5 K:0.4', 'robot:abb pose:abb q2:abb i:0', 'robot:gen3 far: q:gen3', 'robot:ppr pose:ppr qn:ppr')
    return O


def _extra(O):
    """Loaders, messages, Tesseract: only for the history property."""
    from . import rosstub
    rosstub.install()
    from general_robotics_toolbox import ros_msg as rm, robotraconteur as rr, urdf as ru
    import yaml

    def op(name, f, *variants):
        for i, v in enumerate(variants):
            O['%s/%d' % (name, i)] = (f, v.split())
    op('rr', rr.load_robot_info_yaml_to_robot, 'yaml:robot', 'yaml:robot i:1', 'yaml:robot i:7')
    op('rrtext', lambda d: rr.load_robot_info_yaml_to_robot(yaml.safe_dump(d)), 'yaml:robot')
    op('rrtool', rr.load_robot_and_tool_info_yaml_to_robot, 'yaml:robot yaml:tool', 'yaml:robot yaml:tool i:1')
    op('urdf', ru.robot_from_xml_string, 'urdf:', 'urdf: str:a', 'urdf: str:w str:b', 'urdf: str:nope')
    op('msg2transform', rm.msg2transform, 'msg:Transform', 'msg:Pose', 'msg:PoseStamped', 'msg:TransformStamped', 'msg:Twist')
    op('tomsg', lambda T: (rm.transform2msg(T), rm.transform2pose_msg(T), rm.transform2pose_stamped_msg(T), rm.transform2transform_stamped_msg(T)), 'T1:', 'T3:')
    op('six', lambda w: (rm.twist2msg(w), rm.wrench2msg(w), rm.msg2twist(rm.twist2msg(w)), rm.msg2wrench(rm.wrench2msg(w))), 'six:')
    op('qmsg', lambda q, p: (rm.q2msg(q), rm.msg2R(rm.q2msg(q)), rm.p2msg(p), rm.p2point_msg(p), rm.msg2p(rm.p2msg(p))), 'quat:a v:p')
    op('Rmsg', lambda R: (rm.R2msg(R), rm.msg2q(rm.R2msg(R))), 'R:a')
    return O


_ops = {}


def ops(extra=False):
    if extra not in _ops:
        O = _mk_ops()
        _ops[extra] = _extra(O) if extra else O
    return _ops[extra]


# ---- snapshots and comparison
def snap(x):
    if isinstance(x, np.ndarray):
        return ('arr', x.shape, x.dtype.char, x.tobytes(), x.flags.writeable)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(a) for a in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((k, snap(v)) for k, v in x.items())
    if x is None or isinstance(x, (str, bytes, int, float, bool, complex, np.generic)):
        return (type(x).__name__, repr(x))
    if hasattr(type(x), '__slots__') and not hasattr(x, '__dict__'):
        return (type(x).__name__,) + tuple((n, snap(getattr(x, n))) for n in x.__slots__)
    if hasattr(x, '__dict__'):
        return (type(x).__name__,) + tuple((k, snap(v)) for k, v in sorted(vars(x).items()))
    return (type(x).__name__,)


def norm(x):
    """A comparable picture of a result: nested lists of numbers and text."""
    if isinstance(x, np.ndarray):
        return ['#'] + np.asarray(x, dtype=float).tolist() if x.dtype.kind in 'fiub' and x.ndim else [norm(a) for a in np.atleast_1d(x).tolist()]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return float(x)
    if isinstance(x, (list, tuple)):
        return [norm(a) for a in x]
    if x is None or isinstance(x, str):
        return x
    if hasattr(type(x), '__slots__') and not hasattr(x, '__dict__'):
        return [type(x).__name__] + [norm(getattr(x, n)) for n in x.__slots__]
    # attributes of our objects that describe the value
    names = [n for n in ('R', 'p', 'parent_frame_id', 'child_frame_id', 'H', 'P', 'joint_type', 'joint_lower_limit', 'joint_upper_limit', 'joint_vel_limit', 'joint_acc_limit', 'R_tool', 'p_tool', 'joint_names',
                         'root_link_name', 'tip_link_name', 'T_flange', 'T_base', 'secs', 'nsecs') if hasattr(x, n)]
    return [type(x).__name__] + [norm(getattr(x, n)) for n in names]


def same(a, b, tol=1e-9):
    if a == b:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or not (isinstance(a, float) and isinstance(b, float)):
        return type(a) is type(b) and a == b
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def run(f, args):
    """Normalised outcome of a call: value or the exception type."""
    try:
        r = f(*args)
    except Exception as e:
        return ['exception', type(e).__name__], None
    return ['value', norm(r)], r


def settings():
    s = np.random.get_state()
    po = np.get_printoptions()
    return (tuple(sorted(np.geterr().items())), np.geterrcall(), tuple((k, repr(v)) for k, v in sorted(po.items())), s[0], s[1].tobytes(), s[2:], random.getstate(), os.getcwd(), tuple(sorted(os.environ.items())),
            tuple(repr(w) for w in warnings.filters), sys.getrecursionlimit(), tuple(np.getbufsize() for _ in 'x'))


def light():
    """The settings which calls are likeliest to touch."""
    s = np.random.get_state()
    return np.geterr(), np.get_printoptions(), s[0], s[1].tobytes(), s[2:], len(warnings.filters)


SET_NAMES = ('numpy error handling', 'numpy error callback', 'print options', 'random generator', 'random state', 'random position', 'Python random state', 'working directory', 'environment', 'warning filters',
             'recursion limit', 'numpy buffer size')


def scribble(x, depth=0):
    """The caller overwrites everything mutable in an object."""
    if depth > 6:
        return
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in 'fiu':
            x[...] = 17 if x.dtype.kind != 'f' else 17.25
    elif isinstance(x, list):
        for a in x:
            scribble(a, depth + 1)
        del x[:]
    elif isinstance(x, tuple):
        for a in x:
            scribble(a, depth + 1)
    elif isinstance(x, dict):
        for a in list(x.values()):
            scribble(a, depth + 1)
        x.clear()
    elif hasattr(type(x), '__slots__') and not hasattr(x, '__dict__'):
        for n in x.__slots__:
            scribble(getattr(x, n), depth + 1)
            if isinstance(getattr(x, n), (int, float, str)):
                setattr(x, n, 9)
    elif hasattr(x, '__dict__') and not isinstance(x, type) and not callable(x):
        for k, v in list(vars(x).items()):
            scribble(v, depth + 1)
            if isinstance(v, (str, float)):
                setattr(x, k, 'scribbled')
