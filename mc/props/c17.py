"""Tesseract environments: generated robots x link choices x joint vectors, one or several robots per environment, against the reference chain."""
import itertools, math, os
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots
from mc.core import need, tick, note, state, Bad

ID = 'C17'
PI = math.pi
BOUNDS = {'quick': 'all revolute/prismatic mixes of 1-4 joints x all 8 presence combinations of base, flange, tool x joint names given or not (and 5-7 joints x 8 mixes x 8), each at 4 joint vectors for every '
                   '(base link, tip link) pair of the forward kinematics and the Jacobian; 4 industrial layouts, nearly aligned axes and small link vectors with extreme limits; 7 robot names x 6 lists of joint names that look like prefixes, links or each other; environment arguments and defaults; repeated joint names, refused; all 56 three-joint type lists with a mobile joint, refused; every ordered choice of 2 (and 12 of 3) from 7 robots in one environment, each robot checked after '
                   'every addition and with interleaved queries; 1500 transforms (55 axes x 27 angles down to 1e-12 from 0 and pi) through both conversions; scene graph contents of every robot',
          'thorough': '1-5 joints all mixes x 8 joint vectors; all ordered triples of the 7 robots'}
ASSUME = ['robots have position, velocity and acceleration limits, which the Tesseract conversion requires', 'joint axes are unit vectors',
          'agreement within 1e-9; conversions within 1e-12 of the size of the transform', 'the compiled Tesseract library is trusted as installed; the toolbox code calling it is what is judged']
LV = [(1, 2, 3), (-3, 1, 2), (2, -1, 5), (4, 4, -1)]


def rt():
    from general_robotics_toolbox import tesseract
    try:
        from tesseract_robotics.tesseract_common import setLogLevel, CONSOLE_BRIDGE_LOG_NONE
        setLogLevel(CONSOLE_BRIDGE_LOG_NONE)
    except ImportError:
        pass
    return tesseract


EPS = (.03, 2e-3, 3e-4, 3e-5, 3e-6, 3e-7, 3e-8)


def spec(n, types, bits, seed=0, names=False, layout=None, var=None):
    s = robots.generic(n, list(types), seed) if layout is None else getattr(robots, layout)()
    n = len(s['type'])
    s = robots.aux(s, bits)
    s.update(lower=[-2.5 - .13 * i for i in range(n)], upper=[2.75 + .21 * i for i in range(n)], vel=[1 + .1 * i for i in range(n)], acc=[3.5 - .2 * i for i in range(n)])
    if var is not None:
        # nearly aligned axes, small link vectors, small or unusual limits
        e = EPS[var]
        s['H'] = [ref.unit([(1, e, -e), (2 * e, -1, e), (e, e, 1)][(i + var) % 3]).tolist() for i in range(n)]
        s['P'] = [[e, -2 * e, .7 * e] if (i + var) % 2 else [.3 + e, -2 * e, -e] for i in range(n + 1)]
        for i in range(n):
            s['lower'][i], s['upper'][i], s['vel'][i], s['acc'][i] = [(-e, 2 * e, e, 3 * e), (-1e3 - e, 2e3, 1e6 + e, 1e7), (.5, .5 + e, 1 + e, e), (-20., -1 - e, 12345.678901, 1. / 3)][(i + var) % 4]
    if names:
        s['names'] = ['ax%s' % 'gfedcba'[i] for i in range(n)] if names is True else [names[i % len(names)] + str(i) * (i >= len(names)) for i in range(n)]
    return s


def links(s, name):
    n = len(s['type'])
    return [name + '_base_link'] + ['%s_link_%d' % (name, i + 1) for i in range(n)] + [name + '_chain_tip'] + ([name + '_flange'] if s.get('flange') else []) + ([name + '_tool_tcp'] if s.get('tool') else [])


def joints(s, name):
    return ['%s_%s' % (name, x) for x in (s.get('names') or ['joint_%d' % (i + 1) for i in range(len(s['type']))])]


def model(s, name, q):
    """World pose (4x4) and world-frame point Jacobian (6xn) of every link."""
    n = len(s['type'])
    B = ref.aux_T(s, 'base')
    out = {'world': (np.eye(4), np.zeros((6, n))), name + '_base_link': (B, np.zeros((6, n)))}
    T, ax = B, []

    def put(link, T):
        J = np.zeros((6, n))
        for i, (t, h, o) in enumerate(ax):
            if t == 0:
                J[:3, i], J[3:, i] = h, ref.cross(h, T[:3, 3] - o)
            else:
                J[3:, i] = h
        out[link] = (T, J)
    for i in range(n):
        T = T @ ref.hom(np.eye(3), s['P'][i])
        ax.append((s['type'][i], T[:3, :3] @ np.array(s['H'][i]), T[:3, 3].copy()))
        T = T @ ref.joint_T(s['H'][i], s['type'][i], q[i])
        put('%s_link_%d' % (name, i + 1), T)
    T = T @ ref.hom(np.eye(3), s['P'][n])
    put(name + '_chain_tip', T)
    if s.get('flange'):
        T = T @ ref.aux_T(s, 'flange')
        put(name + '_flange', T)
    if s.get('tool'):
        T = T @ ref.aux_T(s, 'tool')
        put(name + '_tool_tcp', T)
    return out


def rel(m, b, t):
    (Tb, Jb), (Tt, Jt) = m[b], m[t]
    R = Tb[:3, :3].T
    r = Tt[:3, 3] - Tb[:3, 3]
    J = np.zeros_like(Jt)
    for i in range(J.shape[1]):
        J[:3, i] = R @ (Jt[:3, i] - Jb[:3, i])
        J[3:, i] = R @ (Jt[3:, i] - Jb[3:, i] - ref.cross(Jb[:3, i], r))
    return ref.hinv(Tb) @ Tt, J


def qs(s, k):
    n = len(s['type'])
    A = [[0.0] * n, [.3 - .25 * i for i in range(n)], [-1.1 + .5 * i for i in range(n)], [(-1) ** i * (1.9 - .2 * i) for i in range(n)],
         list(s['lower']), list(s['upper']), [PI / 2 if i % 2 else -PI / 2 for i in range(n)], [1e-4 * (i + 1) for i in range(n)]]
    return A[:k]


def close(A, B, msg, *a):
    A = np.asarray(A)
    need(A.shape == B.shape and np.all(np.isfinite(A)) and np.max(np.abs(A - B)) < 1e-9, msg + ': got\n%s\nexpected\n%s', *(a + (A, B)))


def check_robot(t, s, name, K, pairs=True, fine=False):
    L = ['world'] + links(s, name)
    for q in qs(s, K):
        m = model(s, name, q)
        T = t.fwdkin(np.array(q))
        need(isinstance(T, rox.Transform), 'fwdkin gave %r', T)
        close(robots.toH(T), m[L[-1]][0], 'fwdkin of %s at %s', name, q)
        close(robots.toH(T), ref.fk(s, q), 'fwdkin of %s at %s (chain)', name, q)
        close(t.jacobian(np.array(q)), m[L[-1]][1], 'jacobian of %s at %s', name, q)
        tick(2)
        for b in L if pairs else L[:2]:
            for e in L:
                MT, MJ = rel(m, b, e)
                close(robots.toH(t.fwdkin(np.array(q), b, e)), MT, 'fwdkin from %s to %s at %s', b, e, q)
                close(t.jacobian(np.array(q), b, e), MJ, 'jacobian from %s to %s at %s', b, e, q)
                tick(2)
        e = L[len(L) // 2]
        close(robots.toH(t.fwdkin(np.array(q), tip_link_name=e)), m[e][0], 'fwdkin to %s', e)
        close(t.jacobian(np.array(q), link_name=e), m[e][1], 'jacobian of %s', e)
        close(robots.toH(t.fwdkin(np.array(q), base_link_name=L[1])), rel(m, L[1], L[-1])[0], 'fwdkin from %s', L[1])
        close(t.jacobian(np.array(q), base_link_name=L[1]), rel(m, L[1], L[-1])[1], 'jacobian from %s', L[1])
        tick(4)


def check_limits(env, s, name):
    g = env.getKinematicGroup(name)
    need(list(g.getJointNames()) == joints(s, name), 'joint names %s, expected %s', list(g.getJointNames()), joints(s, name))
    lim = g.getLimits()
    for got, want, what in ((np.asarray(lim.joint_limits), np.array([s['lower'], s['upper']]).T, 'position'),
                            (np.asarray(lim.velocity_limits).flatten(), np.array(s['vel']), 'velocity'),
                            (np.asarray(lim.acceleration_limits).flatten(), np.array(s['acc']), 'acceleration')):
        need(got.shape == want.shape and np.array_equal(got, want), '%s limits %s, expected %s', what, got, want)
    need(set(links(s, name)) <= set(env.getLinkNames()), 'links of %s missing: %s', name, list(env.getLinkNames()))
    tick(2)


def vec(v):
    return [v[i] for i in range(len(v))]


def check_sg(s):
    R = rt()
    sg, ln, jn, cn = R.robot_to_scene_graph(robots.build(s), True)
    n = len(s['type'])
    want = [x[2:] for x in links(s, 'r')]
    need(list(ln) == want, 'link names %s, expected %s', ln, want)
    need(list(jn) == [x[2:] for x in joints(s, 'r')], 'joint names %s', jn)
    need(list(cn) == want[:n + 1], 'chain link names %s', cn)
    need(sorted(x.getName() for x in vec(sg.getLinks())) == sorted(want), 'scene graph links')
    J = {}
    for j in vec(sg.getJoints()):
        J[j.child_link_name] = j
    need(len(J) == len(want) - 1, 'scene graph has %d joints', len(J))
    from tesseract_robotics.tesseract_scene_graph import JointType_FIXED, JointType_REVOLUTE, JointType_PRISMATIC
    tip = 'chain_tip'
    for i in range(n):
        j = J['link_%d' % (i + 1)]
        need(j.getName() == jn[i] and j.parent_link_name == want[i], 'joint %d is %s from %s', i, j.getName(), j.parent_link_name)
        need(j.type == (JointType_REVOLUTE, JointType_PRISMATIC)[s['type'][i]], 'joint %d has type %s', i, j.type)
        close(np.asarray(j.axis).flatten(), np.array(s['H'][i], dtype=float), 'axis of joint %d', i)
        close(j.parent_to_joint_origin_transform.matrix(), ref.hom(np.eye(3), s['P'][i]), 'origin of joint %d', i)
        l = j.limits
        need((l.lower, l.upper, l.velocity, l.acceleration) == (s['lower'][i], s['upper'][i], s['vel'][i], s['acc'][i]), 'limits of joint %d: %s', i, (l.lower, l.upper, l.velocity, l.acceleration))
    fixed = [('chain_tip', 'link_%d' % n, ref.hom(np.eye(3), s['P'][n]))]
    if s.get('flange'):
        fixed.append(('flange', tip, ref.aux_T(s, 'flange')))
        tip = 'flange'
    if s.get('tool'):
        fixed.append(('tool_tcp', tip, ref.aux_T(s, 'tool')))
    for c, p, M in fixed:
        need(J[c].type == JointType_FIXED and J[c].parent_link_name == p, 'joint of %s', c)
        close(J[c].parent_to_joint_origin_transform.matrix(), M, 'origin of %s', c)
    bj = R.get_robot_world_to_base_joint(robots.build(s), 'r')
    need(bj.parent_link_name == 'world' and bj.child_link_name == 'r_base_link' and bj.type == JointType_FIXED, 'base joint from %s to %s', bj.parent_link_name, bj.child_link_name)
    close(bj.parent_to_joint_origin_transform.matrix(), ref.aux_T(s, 'base'), 'base joint origin')
    tick(4)


def k_robot(p):
    R = rt()
    s = spec(p['n'], p['types'], p['bits'], p['seed'], p['names'], p.get('layout'), p.get('var'))
    name = p['name']
    check_sg(s)
    r = robots.build(s)
    env, ln, jn = R.robot_to_tesseract_env(r, name, return_names=True)
    need(list(ln) == ['world'] + links(s, name) and list(jn) == joints(s, name), 'names %s %s', ln, jn)
    check_limits(env, s, name)
    need(sorted(env.getLinkNames()) == sorted(['world'] + links(s, name)), 'environment links %s', list(env.getLinkNames()))
    a = R.TesseractRobot(r, name)
    check_limits(a.tesseract_env, s, name)
    check_robot(a, s, name, p['k'])
    b = R.TesseractRobot(tesseract_env=env, robot_name=name)
    check_robot(b, s, name, 2, False)


def small(i):
    return [lambda: spec(3, [0, 1, 0], 7, 0), lambda: spec(2, [1, 0], 3, 1, True), lambda: spec(1, [0], 0, 2), lambda: spec(4, [0, 0, 1, 1], 4, 3),
            lambda: spec(3, [0, 1, 0], 1, 4, True), lambda: spec(3, [1, 1, 1], 6, 5), lambda: spec(6, None, 5, 0, True, 'puma')][i]()


def k_multi(p):
    """Several robots in one environment; each is checked after every addition."""
    R = rt()
    from tesseract_robotics.tesseract_environment import Environment
    sp = [small(i) for i in p['ids']]
    names = p['names']
    env = Environment()
    have = []
    allnames = ['world']
    for k, (s, nm) in enumerate(zip(sp, names)):
        cmds, ln, jn = R.robot_to_tesseract_env_commands(robots.build(s), nm, k == 0, True)
        need(list(ln) == (['world'] if k == 0 else []) + links(s, nm) and list(jn) == joints(s, nm), 'names %s %s', ln, jn)
        ok = env.init(cmds) if k == 0 else env.applyCommands(cmds)
        need(ok, 'the environment refused robot %s', nm)
        allnames += links(s, nm)
        t = R.TesseractRobot(tesseract_env=env, robot_name=nm)
        have.append((t, s, nm))
        need(sorted(env.getLinkNames()) == sorted(allnames), 'links %s', list(env.getLinkNames()))
        need(sorted(env.getGroupNames()) == sorted(x[2] for x in have), 'groups %s', list(env.getGroupNames()))
        for t, s2, n2 in have:
            check_robot(t, s2, n2, 2, False)
            check_limits(env, s2, n2)
        state([p['ids'][:k + 1], names[:k + 1]])
    # interleaved queries
    for j in range(3):
        for t, s, nm in have[::-1]:
            q = qs(s, 4)[(j + 1) % 4]
            close(robots.toH(t.fwdkin(np.array(q))), ref.fk(s, q), 'interleaved fwdkin of %s', nm)
            close(t.jacobian(np.array(q)), ref.jac(s, q), 'interleaved jacobian of %s', nm)
            tick(2)


def k_conv(p):
    R = rt()
    k = ref.unit(p['axis'])
    for th in p['angles']:
        M = ref.hom(ref.rotm(k, th), p['p'])
        T = robots.TH(M, *p['frames'])
        before = (T.R.tobytes(), T.p.tobytes())
        I = R.transform_to_isometry3d(T)
        H = np.array(I.matrix())
        sc = max(1., np.max(np.abs(M[:3, 3])))
        need(H.shape == (4, 4) and np.max(np.abs(H[:3, :3] - M[:3, :3])) < 4e-8 * 1e-4 and np.max(np.abs(H[:3, 3] - M[:3, 3])) < 1e-12 * sc and np.array_equal(H[3], [0, 0, 0, 1]),
             'transform_to_isometry3d of rotation %.17g about %s: got\n%s\nexpected\n%s', th, k, H, M)
        T2 = R.isometry3d_to_transform(I)
        need(isinstance(T2, rox.Transform) and T2.p.shape == (3,) and T2.R.shape == (3, 3), 'isometry3d_to_transform shapes')
        need(np.array_equal(T2.R, H[:3, :3]) and np.array_equal(T2.p, H[:3, 3]), 'isometry3d_to_transform gave\n%s\nof\n%s', robots.toH(T2), H)
        keep = (T2.R.copy(), T2.p.copy())
        del I
        J = R.transform_to_isometry3d(robots.TH(np.eye(4)))
        need(np.array_equal(T2.R, keep[0]) and np.array_equal(T2.p, keep[1]), 'converted transform changed when the Tesseract object was released')
        need((T.R.tobytes(), T.p.tobytes()) == before, 'transform_to_isometry3d modified its argument')
        tick(2)


def k_args(p):
    """Constructor contract and refusals."""
    R = rt()
    s = spec(3, [0, 1, 0], p['bits'])
    env = R.robot_to_tesseract_env(robots.build(s), 'a')
    for kw in (dict(), dict(robot=robots.build(s), tesseract_env=env)):
        try:
            R.TesseractRobot(**kw)
        except Exception:
            pass
        else:
            raise Bad('TesseractRobot accepted %s' % sorted(kw))
    t = R.TesseractRobot(robots.build(s), 'a')
    q = np.array(qs(s, 2)[1])
    for f in (lambda: t.fwdkin(q, 'nolink'), lambda: t.fwdkin(q, None, 'a_nolink'), lambda: t.jacobian(q, 'world', 'nolink'), lambda: R.robot_to_tesseract_env(robots.build(s), invkin_solver='Nope')):
        try:
            f()
        except Exception:
            pass
        else:
            raise Bad('an unknown name was accepted')
    for ts in itertools.product((0, 1, 2, 3), repeat=3):
        if max(ts) > 1:
            try:
                R.robot_to_tesseract_env(robots.build(dict(s, type=list(ts))))
            except Exception:
                tick()
            else:
                raise Bad('a robot with the mobile joint types %s was accepted' % (ts,))
    for names in (['a', 'b', 'a'], ['a', 'a', 'b'], ['b', 'a', 'a'], ['a', 'a', 'a'], ['a', 'link_3_to_chain_tip', 'b']):
        x = dict(s, names=names)
        for f in (R.robot_to_scene_graph, R.robot_to_tesseract_env, R.TesseractRobot):
            try:
                f(robots.build(x))
            except Exception:
                tick()
            else:
                raise Bad('joint names %s are accepted' % names)
    d = R.TesseractRobot(robots.build(s))
    close(robots.toH(d.fwdkin(q)), ref.fk(s, q), 'default name')
    need(d.robot_name == 'robot' and sorted(d.tesseract_env.getLinkNames()) == sorted(['world'] + links(s, 'robot')), 'default names')
    # the same results without the names, for every default
    import yaml
    from tesseract_robotics.tesseract_environment import Environment, Commands, AddSceneGraphCommand, AddKinematicsInformationCommand
    r = robots.build(s)
    env = R.robot_to_tesseract_env(r)
    check_robot(R.TesseractRobot(tesseract_env=env), s, 'robot', 2, False)
    env = Environment()
    need(env.init(R.robot_to_tesseract_env_commands(r)), 'commands refused')
    check_robot(R.TesseractRobot(tesseract_env=env), s, 'robot', 2, False)
    need(env.applyCommands(R.robot_to_tesseract_env_commands(r, 'second', False)), 'commands refused')
    check_robot(R.TesseractRobot(tesseract_env=env, robot_name='second'), s, 'second', 2, False)
    sg = R.robot_to_scene_graph(r)
    need(sorted(x.getName() for x in vec(sg.getLinks())) == sorted(x[2:] for x in links(s, 'r')), 'scene graph without names: links %s', [x.getName() for x in vec(sg.getLinks())])
    L, J = links(s, 'r'), joints(s, 'r')
    C = L[:len(s['type']) + 1]
    for b, e in ((None, None), (L[1], None), (None, C[-1]), ('world', L[-1]), (L[1], L[2])):
        kw = {}
        if b:
            kw['base_link'] = b
        if e:
            kw['tip_link'] = e
        for solver in (None, 'KDLInvKinChainLMA', 'KDLInvKinChainNR'):
            d = R.kinematics_plugin_info_dict(r, 'r', L, J, C, solver, **kw)
            need(yaml.safe_load(R.kinematics_plugin_info_string(r, 'r', L, J, C, solver, **kw)) == d, 'plugin information as text differs from %s', d)
            k = d['kinematic_plugins']
            ik = k['inv_kin_plugins']['r']
            need(ik['default'] == (solver or 'KDLInvKinChainLMA'), 'default solver of %s, asked %s', ik, solver)
            for g in [k['fwd_kin_plugins']['r']['plugins'][x] for x in k['fwd_kin_plugins']['r']['plugins']] + [ik['plugins'][x] for x in ik['plugins']]:
                need((g['config']['base_link'], g['config']['tip_link']) == (b or L[0], e or L[-1]), 'chain of %s with %s', g, kw)
            tick()
        if b != L[1]:
            info = R.tesseract_kinematics_information(r, 'r', L, J, C, **kw)
            c = Commands()
            c.append(AddSceneGraphCommand(R.world_scene_graph()))
            c.append(AddSceneGraphCommand(R.robot_to_scene_graph(r), R.get_robot_world_to_base_joint(r, 'r'), 'r_'))
            c.append(AddKinematicsInformationCommand(info))
            env = Environment()
            need(env.init(c), 'environment with %s refused', kw)
            t = R.TesseractRobot(tesseract_env=env, robot_name='r')
            m = model(s, 'r', q)
            close(robots.toH(t.fwdkin(q, b or L[0], e or L[-1])), rel(m, b or L[0], e or L[-1])[0], 'fwdkin with %s', kw)
            close(t.jacobian(q, b or L[0], e or L[-1]), rel(m, b or L[0], e or L[-1])[1], 'jacobian with %s', kw)
            tick(2)
    # caller supplied solver information wins over the solver name
    ov = R.kinematics_plugin_invkin_kdl_plugin_info_dict('r', 'world', L[-1], 'KDLInvKinChainNR')
    for solver in (None, 'KDLInvKinChainLMA', 'OPWInvKin', 'ignored'):
        k = R.kinematics_plugin_info_dict(r, 'r', L, J, C, solver, ov, 'world', L[-1])['kinematic_plugins']
        need(k['inv_kin_plugins'] == ov[0]['inv_kin_plugins'] and set(ov[1]) <= set(k['search_libraries']), 'override lost: %s', k)
        env = R.robot_to_tesseract_env(r, 'r', invkin_solver=solver, invkin_plugin_info=ov)
        check_robot(R.TesseractRobot(tesseract_env=env, robot_name='r'), s, 'r', 1, False)
        tick()
    w = R.world_scene_graph(p['world'])
    need([x.getName() for x in vec(w.getLinks())] == [p['world']] and len(w.getJoints()) == 0, 'world scene graph')
    tick(9)


KINDS = dict(robot=k_robot, multi=k_multi, conv=k_conv, args=k_args)


def robots_space(tier):
    m = 4 if tier == 'quick' else 5
    for n in range(1, m + 1):
        for ts in itertools.product((0, 1), repeat=n):
            for b in range(8):
                for names in (False, True):
                    yield n, list(ts), b, names, None
    for n in range(m + 1, 8):
        for k in range(8):
            for b in range(8):
                yield n, [(k >> (i % 3)) & 1 if i % 2 else (k * i) % 2 for i in range(n)], b, bool((k + b) % 2), None
    # other base/flange/tool alphabets (translations, rotations, quarter turns, corrections down to 3e-8), small robots
    for b in range(8, 88):
        if b % 8:
            yield 1 + b % 3, [(b >> (i + 3)) & 1 for i in range(1 + b % 3)], b, bool(b % 2), None
    for v in range(7):
        for n in (1, 2, 3, 6):
            yield n, [(v >> (i % 3)) & 1 for i in range(n)], (v * 5 + n) % 8 + 8 * ((v + n) % 11), bool(v % 2), v
    for lay in ('puma', 'abb', 'sawyer', 'scara'):
        for b in range(8):
            yield 0, [], b, bool(b % 2), lay


def shards(tier):
    return [[tier, 'robot', i] for i in range(32)] + [[tier, 'multi', i] for i in range(8)] + [[tier, 'conv', i] for i in range(4)]


def cases(sh):
    tier, what, i = sh
    if what == 'robot':
        for m, (n, ts, b, names, lay) in enumerate(robots_space(tier)):
            if m % 32 == i:
                yield 'robot', dict(n=n, types=ts, bits=b, seed=m % 5, names=names, layout=lay if isinstance(lay, str) else None, var=lay if isinstance(lay, int) else None, name=('robot', 'r', 'left_arm', 'r2d2')[m // 32 % 4], k=4 if tier == 'quick' else 8)
        # names which look like a prefix, a link, or the other names
        m = 0
        for name in ('robot', 'joint', 'link', 'base', 'a_b', 'world_1', 'R'):
            for names in ([name + '_a', name, 'b'], ['link_1', 'base_link', 'chain_tip'], ['joint_2', 'joint_1', 'joint_3'], [name + '_joint_1', 'joint_1', '_x'], ['A', 'a', 'a_' + name], ['tool_tcp', 'flange', name + '_' + name + '_']):
                m += 1
                if m % 32 == i:
                    yield 'robot', dict(n=(3, 2, 5)[m % 3], types=[(m >> b) & 1 for b in range((3, 2, 5)[m % 3])], bits=m % 8, seed=m % 5, names=names, layout=None, var=None, name=name, k=3)
    elif what == 'multi':
        S = [p for p in itertools.permutations(range(7), 2)] + [(k, k) for k in range(7)]
        T = list(itertools.permutations(range(7), 3))
        S += T if tier != 'quick' else T[::17][:12]
        for m, ids in enumerate(S):
            if m % 8 == i:
                yield 'multi', dict(ids=list(ids), names=[['ra', 'rb', 'rc'], ['robot', 'robot2', 'robot_b'], ['z', 'a', 'm']][m // 8 % 3][:len(ids)])
    else:
        ang = [0, 1e-12, 1e-9, 1e-6, 1e-3, .1, .7, PI / 2, 2, 2.7, 3.1, PI - 1e-3, PI - 1e-6, PI - 1e-8, PI - 1e-9, PI - 1e-12, PI]
        ang = ang + [-a for a in ang[3:13]]
        for m, ax in enumerate(ref.prim_axes(2)[:98 if tier != 'quick' else 55]):
            if m % 4 == i:
                yield 'conv', dict(axis=list(ax), angles=ang, p=[[0, 0, 0], [.3, -.2, .5], [1e3, -2e-3, 7.], [-1e-9, 1e6, 3]][m % 4 if m % 3 else 1], frames=[[None, None], ['a', 'b']][m % 2])
        if i < 4:
            for b in (0, 2 * i % 8, 7):
                yield 'args', dict(bits=b, world=('world', 'map', 'w0', 'earth')[i])
