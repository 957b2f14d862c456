"""URDF loading: generated mechanisms, tree shapes, root/tip selections and sources against a tree model."""
import itertools, math, os, shutil, sys, tempfile, types
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots
from mc.core import need, tick, note, Bad

ID = 'C16'
PI = math.pi
BOUNDS = {'quick': 'chains of 1 and 2 joints: every combination of type (fixed/revolute/prismatic) x origin (none, xyz, rpy, both) x axis (x, default, -y, oblique) per joint; chains of 3: every type and origin '
                   'combination; 4: every type combination x 4 rotations; 6-9 joints: 40 patterns; each at 2^n-like joint vectors; all rooted trees of 3 and 4 links x every type assignment of '
                   '{fixed, revolute, prismatic, floating, continuous} x every root and tip choice (none, each link, an unknown name); sources (with files of the same name elsewhere) string, file, package file, xacro (plain and with a '
                   'property and macro), package xacro, parameter server; origins, axes and limits from 1e-9 to 1e6; omitted lower or upper limits; visual, collision, dynamics, safety_controller, calibration, transmission, gazebo and material elements, which must not matter',
          'thorough': '3-joint chains with every type x origin x axis combination, all trees of 5 links with 3 types'}
ASSUME = ['inertial parameters are present or absent; their conversion is judged by C24', 'axes are unit vectors; a missing axis element means 1 0 0',
          'limits are kept only if every moving joint has them', 'refused means any exception', 'a chain without a moving joint may be refused or loaded',
          'the ROS parameter server and package index are stand-ins (rospy.get_param stub, ROS_PACKAGE_PATH in a scratch folder)']
XYZ = [(.3, -.2, .5), (0, 0, 1.25), (-.7, .1, 0), (1e-3, 2, -3)]
RPY = [(.4, -1.1, 2.3), (0, 0, PI / 2), (PI, 0, 0), (-2.2, .9, -.3), (0, -PI / 2, 0)]
EPS = (.03, 2e-3, 3e-4, 3e-5, 3e-6, 3e-7, 3e-8)
# small origins and limits (3e-8 to .03), several turns, numbers with many digits
XYZ += [(e, -2 * e, .7 * e) if k % 2 else (.3 + e, -2 * e, 1. - e) for k, e in enumerate(EPS)] + [(1234.5678901, -.0123, 1e-9)]
RPY += [(e, -.6 * e, 2 * e) if k % 2 else (PI + e, -e, .5 * e) for k, e in enumerate(EPS)] + [(e, 0, 0) for e in EPS[::2]] + [(0, 0, -7.5), (PI / 2 - 1e-5, PI / 2 - 3e-6, 2 * PI)]
AXES = [(1, 0, 0), None, (0, -1, 0), tuple(ref.unit((1, 2, -2)).tolist()), (0, 0, 1)]
TILT = [tuple(ref.unit((e, 1, -e) if k % 2 else (1, -e, 2 * e)).tolist()) for k, e in enumerate(EPS)]
TY = {'f': 'fixed', 'r': 'revolute', 'p': 'prismatic', 'F': 'floating', 'c': 'continuous', 'P': 'planar'}


def num(v):
    return ' '.join(repr(float(x)) for x in v)


def xml(m, head=0):
    """m: dict(links, joints=[dict(parent, child, t, o, a, lim, name)])"""
    out = []
    for k, l in enumerate(m['links']):
        inr = ''
        if (m.get('inertial', 0) >> (k % 4)) & 1:
            inr = '<inertial><origin xyz="0.1 0 %d" rpy="0 0.2 0"/><mass value="%d"/><inertia ixx="1" ixy="0.1" ixz="0" iyy="2" iyz="0" izz="3"/></inertial>' % (k, k + 1)
        if m.get('extra'):
            # what a chain does not depend on
            o = '<origin xyz="0.%d 1 -2" rpy="0.3 %d 1"/>' % (k + 1, k)
            inr += ('<visual>%s<geometry><box size="1 2 3"/></geometry><material name="m%d"><color rgba="1 0 0 1"/></material></visual>' % (o, k), '<collision>%s<geometry><cylinder radius="1" length="2"/></geometry></collision>' % o,
                    '<visual><geometry><mesh filename="package://x/y.stl" scale="0.001 0.001 0.001"/></geometry></visual><collision><geometry><sphere radius="0.5"/></geometry></collision>', '')[(k + m['extra']) % 4]
        out.append('<link name="%s">%s</link>' % (l, inr) if inr or k % 2 else '<link name="%s"/>' % l)
    js = []
    for j in m['joints']:
        s = '<joint name="%s" type="%s"><parent link="%s"/><child link="%s"/>' % (j['name'], TY[j['t']], j['parent'], j['child'])
        o = j['o']
        if o is not None:
            s += '<origin' + (' xyz="%s"' % num(o[0]) if o[0] is not None else '') + (' rpy="%s"' % num(o[1]) if o[1] is not None else '') + '/>'
        if j['a'] is not None and j['t'] not in 'fF':
            s += '<axis xyz="%s"/>' % num(j['a'])
        if j['lim'] is not None and j['t'] in 'rpc':
            # lower and upper are optional and default to 0
            s += '<limit' + ''.join(' %s="%r"' % (a, v) for a, v, d in zip(('lower', 'upper', 'effort', 'velocity'), j['lim'], j.get('defaults', (0, 0, 0, 0))) if not d) + '/>'
        x = m.get('extra', 0)
        if x:
            k = len(js) + x
            s += ('<dynamics damping="0.7" friction="%d"/>' % k, '<safety_controller soft_lower_limit="-0.2" soft_upper_limit="0.3" k_position="100" k_velocity="15"/>' if j['t'] in 'rpc' else '', '<calibration rising="0.7"/>',
                  '<dynamics damping="1.5"/><safety_controller soft_lower_limit="-9" soft_upper_limit="9" k_position="1" k_velocity="0.1"/>' if j['t'] in 'rpc' else '<dynamics friction="2"/>', '')[k % 5]
            if j['t'] == 'f' and k % 3 == 0:
                s += '<axis xyz="0 1 0"/><limit lower="-1" upper="1" effort="3" velocity="2"/>'
        js.append(s + '</joint>')
    if m.get('extra', 0) % 3 == 1:
        js.append('<material name="blue"><color rgba="0 0 0.8 1"/></material>')
        js.append('<transmission name="tr"><type>transmission_interface/SimpleTransmission</type><joint name="%s"><hardwareInterface>EffortJointInterface</hardwareInterface></joint><actuator name="mot"><mechanicalReduction>50</mechanicalReduction></actuator></transmission>' % m['joints'][0]['name'])
        js.append('<gazebo reference="%s"><mu1>0.2</mu1></gazebo>' % m['links'][0])
    rot = m.get('order', 0)
    allx = out + js
    allx = allx[rot % len(allx):] + allx[:rot % len(allx)]
    if rot % 2:
        allx.reverse()
    h = ['', '<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="utf-8"?>\n<!-- robot -->\n'][head % 3]
    return h + '<robot name="gen">\n' + '\n'.join(allx) + '\n</robot>'


def path(m, root, tip):
    """Joints from root to tip, or None."""
    up = {j['child']: j for j in m['joints']}
    out, l = [], tip
    while l != root:
        if l not in up:
            return None
        out.append(up[l])
        l = up[l]['parent']
    return out[::-1]


def select(m, root, tip):
    """(root, tip, chain), or None if it has to be refused."""
    links, ch = m['links'], set(j['child'] for j in m['joints'])
    if root is None:
        rs = [l for l in links if l not in ch]
        if len(rs) != 1:
            return None
        root = rs[0]
    if root not in links:
        return None
    if tip is None:
        par = set(j['parent'] for j in m['joints'])
        c = []
        for l in links:
            if l in par:
                continue
            p = path(m, root, l)
            if p is None or any(j['t'] == 'F' for j in p) or all(j['t'] == 'f' for j in p):
                continue
            c.append(l)
        if len(c) != 1:
            return None
        tip = c[0]
    if tip not in links:
        return None
    p = path(m, root, tip)
    if not p or any(j['t'] in 'FcP' for j in p):
        return None
    return root, tip, p


def chain_T(p, q):
    T, i = np.eye(4), 0
    for j in p:
        if j['o'] is not None:
            r = j['o'][1] or (0, 0, 0)
            T = T @ ref.hom(ref.rotm(np.array((0., 0, 1)), r[2]) @ ref.rotm(np.array((0., 1, 0)), r[1]) @ ref.rotm(np.array((1., 0, 0)), r[0]), j['o'][0] or (0, 0, 0))
        a = np.array(j['a'] if j['a'] is not None else (1, 0, 0), dtype=float)
        if j['t'] == 'r':
            T = T @ ref.hom(ref.rotm(a, q[i]), (0, 0, 0))
            i += 1
        elif j['t'] == 'p':
            T = T @ ref.hom(np.eye(3), a * q[i])
            i += 1
    return T


def check(r, m, sel, what, depth):
    root, tip, p = sel
    need(isinstance(r, rox.Robot), '%s gave %r', what, r)
    mv = [j for j in p if j['t'] in 'rp']
    n = len(mv)
    need(np.shape(r.H) == (3, n) and np.shape(r.P) == (3, n + 1) and len(r.joint_type) == n, '%s: %d joints, expected %d', what, len(r.joint_type), n)
    need([int(t) for t in r.joint_type] == ['rp'.index(j['t']) for j in mv], '%s: types %s', what, r.joint_type)
    need(list(r.joint_names) == [j['name'] for j in mv], '%s: joint names %s', what, r.joint_names)
    need(r.root_link_name == root and r.tip_link_name == tip, '%s: root %s tip %s, expected %s %s', what, r.root_link_name, r.tip_link_name, root, tip)
    if n and all(j['lim'] is not None for j in mv):
        for k, nm in enumerate(('joint_lower_limit', 'joint_upper_limit', 'joint_effort_limit', 'joint_vel_limit')):
            g = getattr(r, nm, None)
            need(g is not None and np.shape(g) == (n,) and np.allclose(np.array(g, dtype=float), [j['lim'][k] for j in mv], 0, 1e-12), '%s: %s %s', what, nm, g)
        lo, up = [j['lim'][0] for j in mv], [j['lim'][1] for j in mv]
    elif n:
        need(r.joint_lower_limit is None and r.joint_upper_limit is None and r.joint_vel_limit is None, '%s: limits %s %s although not all are given', what, r.joint_lower_limit, r.joint_upper_limit)
        lo, up = [-3.] * n, [3.] * n
    else:
        lo = up = []
    al = [(a + .15 * (b - a), a + .8 * (b - a)) for a, b in zip(lo, up)]
    qs = [[0.] * n] if all(a <= 0 <= b for a, b in zip(lo, up)) else []
    qs += [list(q) for q in itertools.product(*al)] if n <= depth else [[a[(k >> i) & 1] for i, a in enumerate(al)] for k in (0, (1 << n) - 1, 0x55 & ((1 << n) - 1), 0x4b)]
    for q in qs:
        T = rox.fwdkin(r, np.array(q))
        E = chain_T(p, q)
        tick()
        need(np.max(np.abs(robots.toH(T) - E)) < 1e-10 * (1 + np.max(np.abs(E))), '%s: pose at %s is\n%s\nexpected\n%s', what, q, robots.toH(T), E)


def urdf():
    from general_robotics_toolbox import urdf as u
    return u


def k_chain(p):
    m = p['m']
    x = xml(m, p['head'])
    sel = select(m, None, None)
    need(sel is not None, 'harness: %s', p)
    check(urdf().robot_from_xml_string(x), m, sel, x, 3)


def k_tree(p):
    m = p['m']
    x = xml(m, len(m['links']))
    L = m['links'] + ['nosuch']
    for root in [None] + L:
        for tip in [None] + L:
            sel = select(m, root, tip)
            what = 'root %s tip %s of %s' % (root, tip, x)
            try:
                r = urdf().robot_from_xml_string(x, root, tip) if tip is None else urdf().robot_from_xml_string(x, tip_link=tip, root_link=root)
            except Exception:
                tick()
                need(sel is None or all(j['t'] == 'f' for j in sel[2]), 'refused %s', what)
                note('refused')
                continue
            tick()
            need(sel is not None, 'accepted %s: root %s tip %s joints %s', what, r.root_link_name, r.tip_link_name, r.joint_names)
            check(r, m, sel, what, 2)
            note('loaded')


def k_source(p):
    m = p['m']
    x = xml(m, p['head'])
    u = urdf()
    d = tempfile.mkdtemp(prefix='mcurdf')
    old = os.environ.get('ROS_PACKAGE_PATH')
    oldrospy = sys.modules.get('rospy')
    cwd = os.getcwd()
    try:
        os.makedirs(d + '/ws/mc_pkg/urdf')
        with open(d + '/ws/mc_pkg/package.xml', 'w') as f:
            f.write('<package format="2"><name>mc_pkg</name><version>0.1.0</version><description>d</description><maintainer email="a@b.c">m</maintainer><license>BSD</license></package>')
        with open(d + '/ws/mc_pkg/urdf/r.urdf', 'w', encoding='utf-8') as f:
            f.write(x)
        xx = x.replace('<robot name="gen">', '<robot name="gen" xmlns:xacro="http://www.ros.org/wiki/xacro">')
        with open(d + '/ws/mc_pkg/urdf/r.xacro', 'w', encoding='utf-8') as f:
            f.write(xx)
        # the same mechanism written with a property and a macro
        first = '<link name="%s"/>' % m['links'][0]
        xm = xx.replace('<robot name="gen" xmlns:xacro="http://www.ros.org/wiki/xacro">', '<robot name="gen" xmlns:xacro="http://www.ros.org/wiki/xacro">'
                        '<xacro:property name="nm" value="%s"/><xacro:macro name="lk" params="n"><link name="${n}"/></xacro:macro>' % m['links'][0]).replace(first, '<xacro:lk n="${nm}"/>')
        with open(d + '/ws/mc_pkg/urdf/m.xacro', 'w', encoding='utf-8') as f:
            f.write(xm)
        # files of the same name elsewhere which must not be picked up
        os.makedirs(d + '/ws/mc_pkg2/urdf')
        os.makedirs(d + '/urdf')
        with open(d + '/ws/mc_pkg2/package.xml', 'w') as f:
            f.write('<package format="2"><name>mc_pkg2</name><version>0.1.0</version><description>d</description><maintainer email="a@b.c">m</maintainer><license>BSD</license></package>')
        for e in ('/urdf/', '/ws/mc_pkg2/urdf/', '/', '/ws/mc_pkg/', '/ws/urdf/'):
            os.makedirs(d + e, exist_ok=True)
            for e2 in ('r.urdf', 'r.xacro'):
                with open(d + e + e2, 'w', encoding='utf-8') as f:
                    f.write(xml(p['m2'], 0))
        os.environ['ROS_PACKAGE_PATH'] = d + '/ws'
        store = {'robot_description': x, '/other/desc': xml(p['m2'], 1), 'other/desc': x, 'desc': x, '/robot_description': xml(p['m2'], 0)}
        stub = types.ModuleType('rospy')
        stub.get_param = lambda k, *a: store[k]
        sys.modules['rospy'] = stub
        os.chdir(d)
        for root, tip in p['sel']:
            for mm, what, f in ((m, 'string', lambda: u.robot_from_xml_string(x, root, tip)),
                                (m, 'file', lambda: u.robot_from_xml_file(d + '/ws/mc_pkg/urdf/r.urdf', None, root, tip)),
                                (m, 'file, relative', lambda: u.robot_from_xml_file('ws/mc_pkg/urdf/r.urdf', root_link=root, tip_link=tip)),
                                (m, 'package file', lambda: u.robot_from_xml_file('urdf/r.urdf', 'mc_pkg', root, tip)),
                                (m, 'xacro', lambda: u.robot_from_xacro_file(d + '/ws/mc_pkg/urdf/r.xacro', None, root, tip)),
                                (m, 'xacro macro', lambda: u.robot_from_xacro_file(d + '/ws/mc_pkg/urdf/m.xacro', root_link=root, tip_link=tip)),
                                (m, 'package xacro', lambda: u.robot_from_xacro_file('urdf/r.xacro', 'mc_pkg', root, tip)),
                                (m, 'parameter', lambda: u.robot_from_parameter_server(root_link=root, tip_link=tip)),
                                (p['m2'], 'named parameter', lambda: u.robot_from_parameter_server('/other/desc', root, tip))):
                sel = select(mm, root, tip)
                what = '%s, root %s, tip %s: %s' % (what, root, tip, x)
                try:
                    r = f()
                except Exception as e:
                    tick()
                    need(sel is None, '%s refused (%r)', what, e)
                    note('source refused')
                    continue
                tick()
                need(sel is not None, '%s accepted', what)
                check(r, mm, sel, what, 2)
                note('source loaded')
        for f in (lambda: u.robot_from_xml_file(d + '/none.urdf'), lambda: u.robot_from_xml_file('urdf/r.urdf', 'no_such_pkg'), lambda: u.robot_from_parameter_server('nokey'),
                  lambda: u.robot_from_xacro_file(d + '/none.xacro')):
            try:
                f()
            except Exception:
                tick()
                continue
            raise Bad('a missing source was accepted')
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
        if old is None:
            os.environ.pop('ROS_PACKAGE_PATH', None)
        else:
            os.environ['ROS_PACKAGE_PATH'] = old
        if oldrospy is None:
            sys.modules.pop('rospy', None)
        else:
            sys.modules['rospy'] = oldrospy


KINDS = dict(chain=k_chain, tree=k_tree, source=k_source)


def origin(k, n):
    x, r = XYZ[n % len(XYZ)], RPY[n % len(RPY)]
    return [None, [x, None], [None, r], [x, r]][k]


def limits(k, n):
    if k == 'none':
        return None
    if k == 'small':
        e = EPS[n % 7]
        return [[-e, 2 * e, e, 3 * e], [-1e4 - e, 3e4, 1e7, 1e6 + e], [0., e, 0., e], [0., 0., 1., 1.]][n // 7 % 4]
    return [-1.25 - .5 * (n % 3), 2.5 + n, 10.5 + n, 1.75 - .125 * n] if (n + (k == 'alt')) % 3 else [.5 + n, 1.5 + 2 * n, 100., .25 + n]


def chain(ts, os_, axs, lim='all', order=0, inertial=0):
    n = len(ts)
    links = ['l%d' % ((k * 3 + 1) % 11 if n < 10 else k) for k in range(n + 1)]
    return dict(links=links, order=order, inertial=inertial,
                joints=[dict(parent=links[k], child=links[k + 1], t=ts[k], o=origin(os_[k], k + order), a=(AXES + TILT)[axs[k]], name='j%s%d' % ('ab'[k % 2], (n - k) % 7),
                             lim=None if lim == 'none' or lim == 'part' and k == n - 1 else limits(lim, k + (order if lim == 'small' else 0))) for k in range(n)])


def shards(tier):
    out = [[tier, 'chain', i] for i in range(16)] + [[tier, 'tree', i] for i in range(16)] + [[tier, 'source', i] for i in range(8)]
    return out


def parents(n):
    """Parent index of each non-root link for every rooted tree with labelled growth order."""
    return itertools.product(*[range(k) for k in range(1, n)])


def tree(pa, ts, order=0):
    links = ['w', 'x', 'y', 'z', 'u'][:len(pa) + 1]
    return dict(links=links, order=order, inertial=order % 16,
                joints=[dict(parent=links[p], child=links[k + 1], t=t, o=origin((k + order) % 4, k), a=AXES[(k + order) % 4], name='q%d' % k, lim=limits('all', k)) for k, (p, t) in enumerate(zip(pa, ts))])


def chains(tier):
    n = 0
    for k in (1, 2):
        for ts in itertools.product('frp', repeat=k):
            if set(ts) == {'f'}:
                continue
            for o in itertools.product(range(4), repeat=k):
                for a in itertools.product(*[range(4) if t != 'f' else (0,) for t in ts]):
                    n += 1
                    yield n, ts, o, a
    for ts in itertools.product('frp', repeat=3):
        if set(ts) == {'f'}:
            continue
        for o in itertools.product(range(4), repeat=3):
            A = itertools.product(*[range(4) if t != 'f' else (0,) for t in ts]) if tier != 'quick' else [[(n + 1) % 5, (n // 5) % 5, (n // 3 + 2) % 5]]
            for a in A:
                n += 1
                yield n, ts, o, a
    for ts in itertools.product('frp', repeat=4):
        if set(ts) == {'f'}:
            continue
        for r in range(4):
            n += 1
            yield n, ts, [(r + k * n) % 4 for k in range(4)], [(k + r + n) % 5 for k in range(4)]
    for k in range(40):
        L = 6 + k % 4
        ts = [('r', 'f', 'r', 'p', 'r', 'r', 'f')[(i * (k + 1) + k) % 7] for i in range(L)]
        if set(ts) == {'f'}:
            ts[1] = 'r'
        n += 1
        yield n, ts, [(i * k + i + k) % 4 for i in range(L)], [(i + k * i) % 5 for i in range(L)]


def cases(sh):
    tier, what, i = sh
    if what == 'chain':
        for n, ts, o, a in chains(tier):
            if n % 16 == i:
                m = n // 16
                yield 'chain', dict(m=chain(ts, o, a, ('all', 'all', 'alt', 'none', 'part', 'small')[m % 6], m % 29, m % 16), head=m)
                if m % 3 == 0:
                    yield 'chain', dict(m=chain(ts, [(x + 1) % 4 for x in o], [5 + (x + m + j) % 7 for j, x in enumerate(a)], ('none', 'small')[m % 2], (m + 4) % 31, m % 16), head=m)
                if m % 5 == 0:
                    mm = chain(ts, o, a, ('all', 'alt', 'small')[m // 5 % 3], m % 23, m % 16)
                    mm['extra'] = 1 + m // 5
                    for k, j in enumerate(mm['joints']):
                        if j['lim'] is not None and j['t'] in 'rp':
                            # leave out a lower limit of a positive range, an upper limit of a negative one
                            d = (m // 15 + k) % 3
                            if d:
                                j['lim'] = [[0., 2.5 + k, 3., 1.5], [-1.5 - k, 0., 2., .5]][d - 1]
                                j['defaults'] = (d == 1, d == 2, 0, 0)
                    yield 'chain', dict(m=mm, head=m)
    elif what == 'tree':
        n = 0
        for k, alpha in [(3, 'frpFcP'), (4, 'frpFc')] + ([(5, 'frF')] if tier != 'quick' else []):
            for pa in parents(k):
                for ts in itertools.product(alpha, repeat=k - 1):
                    n += 1
                    if n % 16 == i:
                        yield 'tree', dict(m=dict(tree(pa, ts, n // 16 % 9), extra=n // 16 % 5))
        # names that suggest another root, tip or type than the tree has
        for pa in parents(4):
            for ts in (('r', 'r', 'p'), ('f', 'r', 'f'), ('r', 'F', 'p'), ('p', 'f', 'r'), ('f', 'f', 'r'), ('r', 'f', 'F')):
                for L in (['base', 'world', 'tool0', 'base_link'], ['a', 'base_link', 'tip', 'tool0'], ['tool0', 'flange', 'ee_link', 'tcp'], ['world', 'base_link', 'flange', 'tool0'], ['x', 'tool0', 'base_link', 'world'],
                          ['gr\u00f6\u00dfe', 'base footprint', 'A', 'a'], ['w', 'link_1', 'link_0', 'W']):
                    n += 1
                    if n % 16 == i:
                        m = tree(pa, ts, n // 16 % 9)
                        R = dict(zip(m['links'], L))
                        m['links'] = list(L)
                        for j in m['joints']:
                            j['parent'], j['child'] = R[j['parent']], R[j['child']]
                            j['name'] = {'q0': 'base_joint', 'q1': 'gr\u00f6\u00dfe' if n % 2 else 'fixed', 'q2': L[n % 4]}[j['name']]
                        yield 'tree', dict(m=m)
        if i == 0:
            # two roots
            m = tree((0, 0, 0), 'rrp')
            m['joints'].pop()
            yield 'tree', dict(m=m)
    else:
        n = 0
        for pa in parents(4):
            for ts in (('r', 'r', 'p'), ('f', 'r', 'f'), ('r', 'F', 'p'), ('p', 'f', 'r')):
                n += 1
                if n % 8 == i:
                    m, m2 = tree(pa, ts, n // 8 % 9), tree((0, 1, 1), ('p', 'r', 'f'), n % 5)
                    m['inertial'] = 0
                    m['links'] = list(m['links'])
                    if n % 3 == 1:
                        m['joints'][0]['name'] = 'gr\u00f6\u00dfe \u95a2\u7bc0'
                    yield 'source', dict(m=m, m2=m2, head=n // 8, sel=[(None, None), (None, 'z'), ('x', 'z'), ('w', 'y'), ('y', None), ('bad', None)])
