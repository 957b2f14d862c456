"""Loading the parts of the library: every set of missing optional packages, every order of loading, with every part used after each step."""
import importlib, importlib.abc, importlib.machinery, itertools, os, shutil, sys, tempfile
import numpy as np
from mc import ref, robots, rosstub
from mc.core import need, tick, note, state, Bad, REPO

rosstub.install()
import yaml, urdf_parser_py.urdf, xacro, rospkg, geometry_msgs.msg, rospy, tf, tf2_ros
import general_robotics_toolbox as rox
from general_robotics_toolbox import tesseract as _t, urdf as _u, robotraconteur as _r

ID = 'C25'
BOUNDS = {'quick': 'every subset of the optional packages {rospkg, xacro, geometry_msgs, the ROS listener packages, yaml, urdf_parser_py, tesseract_robotics} missing (128, and each of rospy, tf, tf2_ros alone) x 10 orders of loading '
                   'the 5 adapter modules, all 120 orders for up to one missing package and for all missing; all loaded parts used and compared after every step, then the missing packages appear and the refused parts are loaded',
          'thorough': 'all 120 orders for every subset; also with the inverse kinematics module or the package loaded by star import first'}
ASSUME = ['numpy is installed', 'a missing package means ModuleNotFoundError on import', 'ROS message and listener packages are stand-ins; the others are the installed ones', 'a package that appears later serves modules loaded after that']
PKG = 'general_robotics_toolbox'
GROUPS = {'rospkg': ['rospkg'], 'xacro': ['xacro'], 'geometry_msgs': ['geometry_msgs'], 'listener': ['rospy', 'tf', 'tf2_ros'], 'yaml': ['yaml'], 'urdf_parser_py': ['urdf_parser_py'], 'tesseract_robotics': ['tesseract_robotics'],
          'rospy': ['rospy'], 'tf': ['tf'], 'tf2_ros': ['tf2_ros']}
NEEDS = {'urdf': {'urdf_parser_py'}, 'robotraconteur': {'yaml'}, 'ros_msg': {'geometry_msgs'}, 'ros_tf': {'rospy', 'tf', 'tf2_ros'}, 'tesseract': {'tesseract_robotics', 'yaml'}}
PARTS = list(NEEDS)
OPT = sorted({x for v in GROUPS.values() for x in v})
NAMES = ['hat', 'invhat', 'rot', 'R2rot', 'screw_matrix', 'q2R', 'R2q', 'q2rot', 'rot2q', 'quatcomplement', 'quatproduct', 'quatjacobian', 'rpy2R', 'R2rpy', 'Robot', 'Transform', 'fwdkin', 'robotjacobian', 'subproblem0',
         'subproblem1', 'subproblem2', 'subproblem3', 'subproblem4', 'apply_robot_aux_transforms', 'unapply_robot_aux_transforms', 'identity_transform', 'random_R', 'random_p', 'random_transform', 'robot6_sphericalwrist_invkin',
         'ur_invkin', 'equivalent_configurations', 'iterative_invkin', 'slerp']
XML = ('<robot name="r"><link name="a"/><link name="b"/><link name="c"/><joint name="j" type="revolute"><parent link="a"/><child link="b"/><origin xyz="0.1 -0.2 0.3" rpy="0.4 0.5 -0.6"/><axis xyz="0 0 1"/>'
       '<limit lower="-1" upper="2" velocity="3" effort="4"/></joint><joint name="k" type="prismatic"><parent link="b"/><child link="c"/><origin xyz="0 0.5 0" rpy="0 0 1.5"/><axis xyz="0 1 0"/><limit lower="-2" upper="1" velocity="2" effort="4"/></joint></robot>')
SRC = os.path.realpath(os.path.join(REPO, 'src'))
CODE = {}
_get = importlib.machinery.SourceFileLoader.get_code


def _cached(self, name):
    """Compile each file of the code under test once per process."""
    if not os.path.realpath(self.path).startswith(SRC + os.sep):
        return _get(self, name)
    if self.path not in CODE:
        CODE[self.path] = _get(self, name)
    return CODE[self.path]


class Block(importlib.abc.MetaPathFinder):
    def __init__(self):
        self.names = set()

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.names:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        return None


class World(object):
    """The environment: which optional packages can be imported. Leaving restores the process."""
    def __enter__(self):
        self.saved = {k: m for k, m in sys.modules.items() if k.split('.')[0] in OPT + [PKG]}
        self.block = Block()
        sys.meta_path.insert(0, self.block)
        importlib.machinery.SourceFileLoader.get_code = _cached
        for k in list(sys.modules):
            if k.split('.')[0] == PKG:
                del sys.modules[k]
        return self

    def missing(self, names):
        self.block.names = set(names)
        for k, m in self.saved.items():
            r = k.split('.')[0]
            if r in names:
                sys.modules.pop(k, None)
            elif r in OPT:
                sys.modules[k] = m

    def __exit__(self, *a):
        sys.meta_path.remove(self.block)
        importlib.machinery.SourceFileLoader.get_code = _get
        for k in list(sys.modules):
            if k.split('.')[0] in OPT + [PKG]:
                del sys.modules[k]
        sys.modules.update(self.saved)


def b(*xs):
    return b'|'.join(np.asarray(x, dtype=float).tobytes() for x in xs)


def rbytes(r):
    return b(r.H, r.P, r.joint_type, r.joint_lower_limit, r.joint_upper_limit) + repr(list(r.joint_names)).encode()


ABB = robots.abb()
Q6 = [.3, -.2, .4, .5, .6, -.7]


def use_core():
    g = sys.modules[PKG]
    r = g.Robot(np.array(ABB['H'], dtype=float).T, np.array(ABB['P'], dtype=float).T, np.zeros(6), np.array([-3.6] * 6), np.array([3.6] * 6))
    T = g.fwdkin(r, np.array(Q6))
    M = ref.fk(dict(ABB, lower=None, upper=None) if 'lower' in ABB else ABB, Q6)
    need(np.max(np.abs(robots.toH(T) - M)) < 1e-9, 'fwdkin gives\n%s', T)
    S = g.robot6_sphericalwrist_invkin(r, T)
    need(isinstance(T, g.Transform) and len(S) > 1, '%d inverse kinematics solutions of %r', len(S), T)
    q = g.R2q(T.R)
    k, th = g.R2rot(T.R)
    E = g.equivalent_configurations(r, [np.array(Q6)])
    return b(T.R, T.p, g.robotjacobian(r, np.array(Q6)), q, g.q2R(q), k, th, g.slerp(q, np.array([1., 0, 0, 0]), .3), (T * T.inv()).R, g.subproblem1(np.array([1., 0, 0]), np.array([0, 1., 0]), np.array([0, 0, 1.])),
             g.R2rpy(T.R), *S) + b(len(E))


def mod(p):
    return sys.modules[PKG + '.' + p]


def use_urdf(miss):
    m = mod('urdf')
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, 'r.urdf')
        with open(f, 'w') as o:
            o.write(XML)
        x = rbytes(m.robot_from_xml_string(XML))
        need(rbytes(m.robot_from_xml_file(f)) == x, 'file and string give different robots')
        if 'rospkg' in miss:
            cwd = os.getcwd()
            os.chdir(d)
            try:
                for name in ('r.urdf', f):
                    refused(lambda: m.robot_from_xml_file(name, 'some_package'), 'a file of a package without rospkg')
            finally:
                os.chdir(cwd)
        if 'xacro' in miss:
            refused(lambda: m.robot_from_xacro_file(f), 'a xacro file without xacro')
        elif not miss & {'yaml', 'late'}:
            need(rbytes(m.robot_from_xacro_file(f)) == x, 'xacro file gives another robot')
        return x
    finally:
        shutil.rmtree(d)


def refused(f, what):
    try:
        f()
    except Exception:
        tick()
        return
    raise Bad(what + ' is accepted')


RR = """
robot_type: serial
device_info: {device: {name: robot}, device_origin_pose: {pose: {orientation: {w: 1, x: 0, y: 0, z: 0}, position: {x: 0, y: 0, z: 1}}}}
joint_info:
- {joint_identifier: j0, joint_type: revolute, joint_limits: {lower: -1, upper: 2, velocity: 3, acceleration: 4, effort: 5}}
- {joint_identifier: j1, joint_type: prismatic, joint_limits: {lower: -3, upper: 1, velocity: 2, acceleration: 7, effort: 5}}
chains:
- kin_chain_identifier: c
  H: [{x: 0, y: 0, z: 1}, {x: 1, y: 0, z: 0}]
  P: [{x: 0.1, y: 0, z: 0}, {x: 0, y: 0.2, z: 0}, {x: 0, y: 0, z: 0.3}]
  joint_numbers: [0, 1]
  flange_identifier: f
  flange_pose: {orientation: {w: 0, x: 1, y: 0, z: 0}, position: {x: 0, y: 0.5, z: 0}}
"""


def use_rr():
    r = mod('robotraconteur').load_robot_info_yaml_to_robot(RR)
    return rbytes(r) + b(r.T_flange.R, r.T_flange.p, r.T_base.p)


def use_msg():
    m = mod('ros_msg')
    g = sys.modules[PKG]
    T = g.Transform(ref.rotm(ref.unit((1, 2, 3)), .7), np.array([.1, -2., 3.]), 'a', 'b')
    x = m.transform2transform_stamped_msg(T)
    y = m.msg2transform(x)
    need(isinstance(y, g.Transform), 'msg2transform gives %r', type(y))
    need(np.max(np.abs(y.R - T.R)) < 1e-12 and (y.parent_frame_id, y.child_frame_id) == ('a', 'b'), 'message round trip gives %s', y)
    return b(y.R, y.p) + repr(x).encode()


def use_tf():
    m = mod('ros_tf')
    l = m.TransformListener()
    import rospy
    from geometry_msgs import msg as gm
    l.ros_listener.setTransform(gm.TransformStamped(gm.Header(0, rospy.Time(1), 'w'), 'a', gm.Transform(gm.Vector3(1., 2., 3.), gm.Quaternion(0., 0., .6, .8))))
    T = l.lookupTransform('w', 'a')
    need(isinstance(T, sys.modules[PKG].Transform), 'lookupTransform gives %r', type(T))
    need(np.allclose(T.p, [1, 2, 3]) and (T.parent_frame_id, T.child_frame_id) == ('w', 'a'), 'lookupTransform gives %s', T)
    return b(T.R, T.p)


def use_tess():
    m = mod('tesseract')
    g = sys.modules[PKG]
    T = g.Transform(ref.rotm(ref.unit((1, 2, 3)), .7), np.array([.1, -2., 3.]))
    y = m.isometry3d_to_transform(m.transform_to_isometry3d(T))
    need(isinstance(y, g.Transform) and np.allclose(y.R, T.R) and np.allclose(y.p, T.p), 'conversion round trip gives %s', y)
    r = g.Robot(np.array([[0., 0, 1], [0, 1, 0]]).T, np.array([[.1, 0, .2], [0, .3, 0], [0, 0, .4]]).T, np.array([0, 1]), np.array([-1., -2]), np.array([1., 2]), np.array([1., 1]), joint_acc_limit=np.array([1., 1]))
    sg, ln, jn, cn = m.robot_to_scene_graph(r, True)
    return b(y.R, y.p) + repr((ln, jn, cn)).encode()


def use(part, miss):
    tick()
    if part == 'urdf':
        return use_urdf(miss)
    if part == 'ros_tf':
        return use_tf() if 'geometry_msgs' not in miss else None
    return dict(robotraconteur=use_rr, ros_msg=use_msg, tesseract=use_tess)[part]()


FRESH = {}


def fresh():
    """Results of each part loaded alone with everything installed."""
    if not FRESH:
        for p in [None] + PARTS:
            with World() as w:
                w.missing([])
                importlib.import_module(PKG)
                if p:
                    importlib.import_module(PKG + '.' + p)
                FRESH[p] = use(p, set()) if p else use_core()
    return FRESH


def names(g):
    inv = sys.modules[PKG + '.general_robotics_toolbox_invkin']
    core = sys.modules[PKG + '.general_robotics_toolbox']
    star = {}
    exec('from %s import *' % PKG, star)
    for n in NAMES:
        need(n in star and hasattr(g, n), '%s is not available from the package', n)
        have = [getattr(m, n) for m in (core, inv) if hasattr(m, n)]
        need(have and getattr(g, n) is have[0] and star[n] is have[0], '%s of the package is not the one of its module', n)
    tick()


def k_order(p):
    """Loads the parts in the order given while some packages are missing, then with all of them."""
    want = fresh()
    miss = set(p['miss'])
    what = 'without %s' % sorted(miss)
    with World() as w:
        w.missing(miss)
        try:
            if p.get('first'):
                importlib.import_module(PKG + '.' + p['first'])
            g = importlib.import_module(PKG)
        except Exception as e:
            raise Bad('the package does not load %s: %r' % (what, e))
        need(g.__file__ and os.path.realpath(g.__file__).startswith(SRC), 'wrong package')
        names(g)
        loaded, failed = [], []
        for step in range(2):
            for part in p['order'] if step == 0 else failed:
                w2 = '%s, after %s' % (what if step == 0 else what + ' at first', loaded + ['(%s)' % f for f in failed if step == 0])
                try:
                    m = importlib.import_module(PKG + '.' + part)
                except Exception as e:
                    need(step == 0 and NEEDS[part] & miss, '%s does not load %s: %r', part, w2, e)
                    need(isinstance(e, ImportError), '%s fails with %r instead of an import error', part, e)
                    failed.append(part)
                    note('refused')
                    m = None
                if m is not None and not (NEEDS[part] & miss and step == 0):
                    loaded.append(part)
                state((sorted(miss), sorted(loaded), step))
                if not p.get('light') or part == p['order'][-1]:
                    need(use_core() == want[None], 'the core gives other results %s and %s', w2, part)
                    for x in loaded:
                        try:
                            r = use(x, miss if step == 0 else {'late'})
                        except Bad:
                            raise
                        except Exception as e:
                            raise Bad('%s fails %s and %s: %r' % (x, w2, part, e))
                        need(r is None or r == want[x], '%s gives other results %s and %s', x, w2, part)
            if step == 0:
                w.missing([])
        names(sys.modules[PKG])


KINDS = dict(order=k_order)
ORDERS = list(itertools.permutations(PARTS))
FEW = [tuple(PARTS[i:] + PARTS[:i]) for i in range(5)] + [tuple((PARTS[i:] + PARTS[:i])[::-1]) for i in range(5)]


def space(tier):
    main = ['rospkg', 'xacro', 'geometry_msgs', 'listener', 'yaml', 'urdf_parser_py', 'tesseract_robotics']
    sets = [[g for k, g in enumerate(main) if n >> k & 1] for n in range(128)] + [['rospy'], ['tf'], ['tf2_ros']]
    for s in sets:
        full = tier != 'quick' or len(s) < 2 or len(s) == 7
        for o in ORDERS if full else FEW:
            yield dict(miss=[x for g in s for x in GROUPS[g]], order=list(o))
        for f in ('general_robotics_toolbox_invkin', 'general_robotics_toolbox'):
            yield dict(miss=[x for g in s for x in GROUPS[g]], order=list(FEW[len(s)]), first=f)


def shards(tier):
    return [[tier, i] for i in range(32)]


def cases(sh):
    for n, p in enumerate(space(sh[0])):
        if n % 32 == sh[1]:
            yield 'order', p
