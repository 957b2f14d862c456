"""Tesseract inverse kinematics: derived OPW and UR parameters against independent models, solver round trips, refusals, redundant solutions."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots
from mc.core import need, tick, note, Bad
from mc.props.c17 import rt

ID = 'C18'
PI = math.pi
BOUNDS = {'quick': 'OPW: home posture (upright, joint 2 bent, joint 3 bent) x all 64 axis sign combinations x 9 tilts of link 2 (from 3e-5) x 8 dimension sets (offsets of either sign, elbow offset shorter or longer than the forearm) x 4 ways of splitting offsets between link vectors: model forward '
                   'kinematics at 3 joint vectors; solver round trip for every posture x sign combination x 3 poses with base/tool/limit/frame choices cycling through all 8 x 4 x 3; UR: both orientations x 4 dimension sets '
                   'x 8 splits x base/tool presence x 12 poses x 4 limit sets; KDL solvers LMA and NR on 6 robots x 4 aux x 3 poses; about 80 refusals (no base offset, turned wrist axes, posture that is none of the three); redundant solutions at 3^n positions of 8 limit patterns',
          'thorough': '8 poses per OPW posture and sign combination for every aux/limit choice, 30 UR poses'}
ASSUME = ['OPW parameters are rounded to 6 digits by design, poses agree within 2e-5', 'poses are more than 0.05 rad away from wrist, elbow and shoulder singularities',
          'supported: T_flange = rotation of 90 degrees about y without offset (OPW); DH flange and, along -x, base rotated by 180 degrees about z (UR)',
          'refused means any exception', 'the compiled Tesseract and its solvers are trusted as installed']
RY = ref.rotm((0., 1., 0.), PI / 2)
OPWDIM = [(.1, -.04, .05, (.4, .5, .6, .08)), (0., 0., 0., (.33, .44, .42, .1)), (.32, -.2, 0., (.78, 1.075, 1.1425, .2)), (.0412345, .03, -.0251, (.2000004, .3, .25, .0725)),
          (-.15, .09, .04, (.4, .5, .6, .08)), (-.02, -.1, -.07, (-.1, .45, .5, .03)),
          (.1, -.45, .05, (.4, .5, .2, .08)), (-.05, .6, -.03, (.3, .5, .25, .1))]
TILT = [0., .3, -.6, 1.1, 2.2, 1e-3, -2e-4, 3e-5, PI - .001]
SIGNS = list(itertools.product((1, -1), repeat=6))


def opw(bend, signs, tilt, dim, split):
    a1, a2, b, (c1, c2, c3, c4) = OPWDIM[dim]
    H = np.array([(0, 0, 1), (0, 1, 0), (0, 1, 0), (0, 0, 1), (0, 1, 0), (0, 0, 1)], dtype=float).T * np.array(signs, dtype=float)
    f = [(1, 0, 1, 0), (.25, 0, .5, .3), (0, 1, .8, 1), (1.5, .2, 1.25, -.5)][split]
    P = np.array([(0, 0, c1 * f[0]), (a1, b * f[1], c1 * (1 - f[0])), (0, 0, c2), (a2, b * (1 - f[1]), c3 * f[2]), (0, 0, c3 * (1 - f[2])), (0, 0, c4 * f[3]), (0, 0, c4 * (1 - f[3]))], dtype=float).T
    if tilt:
        P[:, 2] = ref.rotm((0., 1., 0.), tilt) @ P[:, 2]
    if bend == 2:
        P[:, 2:], H[:, 2:] = RY @ P[:, 2:], RY @ H[:, 2:]
    elif bend == 3:
        P[:, 3:], H[:, 3:] = RY @ P[:, 3:], RY @ H[:, 3:]
    s = robots.mk(H.T, P.T, lower=[-3.1] * 6, upper=[3.1] * 6, vel=[1] * 6, acc=[2] * 6)
    s['flange'] = [RY.tolist(), [0, 0, 0]]
    return s


def opw_fk(p, q):
    """The ortho-parallel-wrist mechanism as published; frame at the tip with z along joint 6."""
    t = [float(q[i]) * float(p.sign_corrections[i]) - float(p.offsets[i]) for i in range(6)]
    R = lambda k, a: ref.hom(ref.rotm(k, a), [0, 0, 0])
    D = lambda x, y, z: ref.hom(np.eye(3), [x, y, z])
    z, y = (0., 0., 1.), (0., 1., 0.)
    return (D(0, 0, p.c1) @ R(z, t[0]) @ D(p.a1, p.b, 0) @ R(y, t[1]) @ D(0, 0, p.c2) @ R(y, t[2]) @ D(p.a2, 0, p.c3) @ R(z, t[3]) @ R(y, t[4]) @ R(z, t[5]) @ D(0, 0, p.c4))


def ur_fk(p, q):
    T = ref.hom(np.diag([-1., -1., 1.]), [0, 0, 0])
    for (d, a, al), t in zip([(p.d1, 0, PI / 2), (0, p.a2, 0), (0, p.a3, 0), (p.d4, 0, PI / 2), (p.d5, 0, -PI / 2), (p.d6, 0, 0)], q):
        T = T @ ref.hom(ref.rotm((0, 0, 1), t), [0, 0, d]) @ ref.hom(ref.rotm((1, 0, 0), al), [a, 0, 0])
    return T


QS = [[.3, -.2, .4, .5, .6, -.7], [-1.1, .5, -.9, 1.4, -.8, 2.], [2.4, -.7, .6, -2., 1.2, .2], [.1, .9, -.2, -.4, -1.9, -1.], [-2.8, -.1, -.5, 2.9, .9, 2.9], [.7, .3, .9, -1., 2.2, -2.6],
      [1.6, -1., .8, .3, -.4, 1.], [-.6, .2, 1.3, -2.5, -1.1, .4]]
LIM = [[(-3.1, 3.1)] * 6, [(-6.2, 6.2)] * 6, [(-3.0, 5.0), (-4.5, 3.0), (-3.2, 4), (-3.1, 9), (-9, 3.0), (-7, 7)], [(-2.9, 2.9), (-2, 2), (-2, 2), (-3, 3), (-2.3, 2.3), (-6.4, 6.4)]]


def k_opwfk(p):
    R = rt()
    for tilt in range(len(TILT)):
        for split in range(4):
            s = opw(p['bend'], p['signs'], TILT[tilt], p['dim'], split)
            r = robots.build(s)
            b = (r.H.tobytes(), r.P.tobytes())
            o = R.robot_to_opw_inv_kin_parameters(r)
            need((r.H.tobytes(), r.P.tobytes()) == b, 'the robot was modified')
            fl = ref.hom(RY, [0, 0, 0]) if p['bend'] else np.eye(4)
            for q in QS[:3]:
                A, B = ref.frames(s, q)[-1] @ fl, opw_fk(o, q)
                # joint 6 turns about z of the tip frame: its zero is fixed by the frame
                need(np.max(np.abs(A - B)) < 8e-6, 'parameters %s at %s: model pose\n%s\nrobot\n%s (bend %d, signs %s, tilt %g, split %d)', o, q, B, A, p['bend'], p['signs'], TILT[tilt], split)
                tick()


def frame_args(s, name, choice):
    """(pose wanted by invkin, keyword arguments) for a choice of working frame."""
    if choice == 0:
        return (lambda T: T), {}
    if choice == 1:
        return (lambda T: T), dict(base_link_name='world', tip_link_name=name + ('_tool_tcp' if s.get('tool') else '_flange' if s.get('flange') else '_chain_tip'))
    return (lambda T: ref.hinv(ref.aux_T(s, 'base')) @ T), dict(base_link_name=name + '_base_link')


def inlim(s, q, eps=1e-9):
    return all(l - eps <= x <= u + eps for l, x, u in zip(s['lower'], q, s['upper']))


def fit(s, q):
    """Some whole-turn variant of q within the limits."""
    return all(any(l <= x + 2 * PI * k <= u for k in range(-3, 4)) for l, x, u in zip(s['lower'], q, s['upper']))


def roundtrip(s, solver, q, choice, tol, name='arm', t=None, seed=None, must=True):
    R = rt()
    t = t or R.TesseractRobot(robots.build(s), name, solver)
    M = ref.fk(s, q)
    f, kw = frame_args(s, name, choice)
    sols = t.invkin(robots.TH(f(M)), np.array(q if seed is None else seed, dtype=float), **kw)
    need(isinstance(sols, list), 'invkin gave %r', type(sols))
    near = 9.
    for x in sols:
        x = np.asarray(x)
        need(x.shape == (len(q),) and np.all(np.isfinite(x)), 'invkin solution %s', x)
        need(inlim(s, x, 1e-6), 'invkin solution %s outside the limits %s %s', x, s['lower'], s['upper'])
        e = np.max(np.abs(ref.fk(s, x) - M))
        need(e < tol, '%s solution %s misses the pose of %s by %g (base/tool %s/%s, frame choice %d)', solver, x.tolist(), q, e, 'base' in s, 'tool' in s, choice)
        near = min(near, max(ref.ad(a, b) for a, b in zip(x, q)))
    if must and fit(s, q):
        need(near < 1e-3, '%s: no solution is the generating joint vector %s (nearest differs by %g, %d solutions)', solver, q, near, len(sols))
        note('generating found')
    tick()
    return sols


def elbow_ok(s, q, bend, tilt, dim):
    """Away from the singularities of the ortho-parallel arm with a spherical wrist."""
    J = ref.jac(s, q)
    return np.linalg.cond(J) < 400


def k_opwik(p):
    R = rt()
    s = opw(p['bend'], p['signs'], TILT[p['tilt']], p['dim'], p['split'])
    for bits, lim, choice in p['combos']:
        s2 = dict(s)
        if bits & 1:
            s2['base'] = (robots.BASE, robots.BASE2)[bits >> 2 & 1]
        if bits & 2:
            s2['tool'] = (robots.TOOL, robots.TOOL2)[bits >> 2 & 1]
        s2['lower'], s2['upper'] = [x[0] for x in LIM[lim]], [x[1] for x in LIM[lim]]
        t = R.TesseractRobot(robots.build(s2), 'arm', 'OPWInvKin')
        for k in p['qs']:
            q = QS[k]
            if not elbow_ok(s2, q, p['bend'], p['tilt'], p['dim']):
                note('near singular, skipped')
                continue
            roundtrip(s2, 'OPWInvKin', q, choice, 2e-5, t=t)
        # out of reach
        need(t.invkin(rox.Transform(np.eye(3), np.array([50., 3, 4])), np.zeros(6)) == [], 'an unreachable pose gave solutions')
        tick()


URD = [robots.UR5E, robots.UR3E, robots.UR10, (0.2, .7, .35, .1, .12, .15), (.3, .5, .45, .12, -.1, .09), (.1, .4, .3, -.11, .1, -.08), (-.2, -.45, -.5, .1, .13, .1), (.18123456, .61234567, -.57123456, .17123456, .11987654, -.11654321)]
URSPLIT = [((0, 0, 1, 0), 1), ((1, 0, 0, 0), 1), ((.5, -.3, .8, 0), 1), ((0, 0, .4, .6), 1), ((0, 0, 1, 0), 0), ((1.6, -1.2, .6, 0), .4), ((0, 1, 0, 0), 2), ((.25, .25, .25, .25), .5)]


def ur(sg, dim, split, lim=1, base=None, tool=0):
    d1, a2, a3, d4, d5, d6 = URD[dim]
    f, g = URSPLIT[split]
    s = robots.ur(d1, a2, a3, d4, d5, d6, sg=sg)
    for i in range(4):
        s['P'][1 + i][1] = sg * f[i] * d4
    s['P'][5][1], s['P'][6][1] = sg * d6 * g, sg * d6 * (1 - g)
    s['flange'] = [np.array([(1, 0, 0), (0, 0, 1), (0, -1, 0)] if sg < 0 else [(-1, 0, 0), (0, 0, 1), (0, 1, 0)], dtype=float).T.tolist(), [0, 0, 0]]
    if sg < 0:
        s['base'] = [ref.rotm((0, 0, 1), PI).tolist(), [0, 0, 0]]
    elif base:
        s['base'] = [np.eye(3).tolist(), [0, 0, 0]]
    if tool:
        s['tool'] = (robots.TOOL, robots.TOOL2)[tool - 1]
    s.update(lower=[x[0] for x in LIM[lim]], upper=[x[1] for x in LIM[lim]], vel=[1.] * 6, acc=[2.] * 6)
    return s


URQ = [[a, b, c, d, e, f] for a, b, c, d, e, f in zip((.3, -1.1, 2.4, .1, -2.8, .7, 1.6, -.6, 3., -1.8), (-.8, -1.5, -2.2, -.4, -1., .6, -1.9, -2.6, .9, -.3), (1.2, -1.7, .9, 2.1, -.7, 1.5, -2.3, .5, -1.1, 1.9),
                                                   (.5, 1.4, -2., -.4, 2.9, -1., .3, -2.5, 1.9, -.2), (.6, -.8, 1.2, -1.9, .9, 2.2, -.4, -1.1, 2.8, -2.6), (-.7, 2., .2, -1., 2.9, -2.6, 1., .4, -3., 1.7))]


def k_ur(p):
    R = rt()
    for base, tool, lim, choice in p['combos']:
        s = ur(p['sg'], p['dim'], p['split'], lim, base, tool)
        r = robots.build(s)
        o = R.robot_to_ur_inv_kin_parameters(r)
        bare = {k: v for k, v in s.items() if k != 'tool'}
        for q in URQ[:4]:
            A, B = ref.fk(bare, q), ur_fk(o, q)
            need(np.max(np.abs(A - B)) < 1e-9, 'parameters %s at %s: model pose\n%s\nrobot\n%s', o, q, B, A)
            tick()
        t = R.TesseractRobot(r, 'arm', 'URInvKin')
        for k in range(p['n']):
            q = URQ[k % 10]
            if np.linalg.cond(ref.jac(s, q)) > 200:
                note('near singular, skipped')
                continue
            roundtrip(s, 'URInvKin', q, choice, 1e-6, t=t)
        need(t.invkin(rox.Transform(np.eye(3), np.array([50., 3, 4])), np.zeros(6)) == [], 'an unreachable pose gave solutions')
        tick()


def k_kdl(p):
    s = [robots.puma(), robots.abb(), robots.ur(*robots.UR5E), robots.sawyer(), robots.generic(6, [0, 0, 1, 0, 0, 0], 1), opw(2, (1,) * 6, 0, 2, 0)][p['robot']]
    n = len(s['type'])
    keep = s.get('flange')
    s = robots.aux(s, p['bits'])
    if keep:
        s['flange'] = keep
    s.update(lower=[-3.0] * n, upper=[3.0] * n, vel=[1.] * n, acc=[1.] * n)
    R = rt()
    t = R.TesseractRobot(robots.build(s), 'arm', p['solver'])
    for k in range(3):
        q = (QS[k] + [.4])[:n]
        seed = [x * .97 + .01 for x in q]
        roundtrip(s, p['solver'], q, p['choice'], 1e-3, t=t, seed=seed, must=False)
        sols = roundtrip(s, p['solver'], q, p['choice'], 1e-3, t=t, must=False)
        need(len(sols) > 0, '%s seeded with the solution %s found nothing', p['solver'], q)
        need(min(np.max(np.abs(x - np.array(q))) for x in sols) < 1e-3, '%s seeded with the solution %s gave %s', p['solver'], q, sols)


def refuse(f, what):
    try:
        x = f()
    except Exception:
        tick()
        return
    raise Bad('%s accepted: %s' % (what, str(x)[:300]))


def k_refuse(p):
    R = rt()
    if p['kind'] == 'opw':
        s0 = opw(p['bend'], p['signs'], p['tilt'], p['dim'], 0)
        fn = lambda r: R.robot_to_opw_inv_kin_parameters(r)
        solver = 'OPWInvKin'
    else:
        s0 = ur(p['sg'], p['dim'], p['split'])
        fn = lambda r: R.robot_to_ur_inv_kin_parameters(r)
        solver = 'URInvKin'
    fn(robots.build(s0))
    bads = []

    def bad(what, **kw):
        s = dict(s0)
        s.update(kw)
        bads.append((what, s))

    def P(i, *d):
        x = [list(v) for v in s0['P']]
        x[i] = [a + b for a, b in zip(x[i], d)]
        return x
    s1 = dict(s0)
    s1.pop('flange')
    bads.append(('no flange', s1))
    F = np.array(s0['flange'][0])
    bad('flange with offset', flange=[F.tolist(), [0, 0, .1]])
    bad('flange with offset along x', flange=[F.tolist(), [.02, 0, 0]])
    for k, a in (((0, 0, 1), PI / 2), ((1, 0, 0), PI), ((0, 1, 0), PI), ((1, 0, 0), .01), ((0, 1, 0), -PI / 2)):
        bad('flange turned', flange=[(F @ ref.rotm(k, a)).tolist(), [0, 0, 0]])
    if p['kind'] == 'opw':
        for k in ((0, 0, 1) if p['bend'] else (1, 0, 0), (0.6, 0, .8)):
            h = [list(x) for x in s0['H']]
            h[3] = h[5] = (ref.rotm(k, PI / 2 if k[0] != .6 else .7) @ np.array(h[5])).tolist()
            bad('axes 4 and 6 turned together about %s' % (k,), H=h)
    elif p['sg'] < 0:
        s1 = dict(s0)
        s1.pop('base')
        bads.append(('no base', s1))
    for i in range(6):
        h = [list(x) for x in s0['H']]
        h[i] = ref.unit(np.array([h[i][1], h[i][2], h[i][0]])).tolist()
        bad('axis %d permuted' % (i + 1), H=h)
        h = [list(x) for x in s0['H']]
        h[i] = (ref.rotm((0.6, 0, .8), .05) @ np.array(h[i])).tolist()
        bad('axis %d off by 0.05 rad' % (i + 1), H=h)
        t = list(s0['type'])
        t[i] = 1
        bad('joint %d prismatic' % (i + 1), type=t)
    bad('base joint off axis', P=P(0, .05, 0, 0))
    bad('base joint off axis', P=P(0, 0, -.05, 0))
    for n in (5, 7, 1):
        g = robots.generic(n)
        bads.append(('%d joints' % n, dict(g, lower=[-3.] * n, upper=[3.] * n, vel=[1.] * n, acc=[1.] * n, flange=s0['flange'], base=s0.get('base'))))
    if p['kind'] == 'opw':
        fwd = (.05, 0, 0) if p['bend'] == 0 else (0, 0, .05)
        for i in (4, 5, 6):
            bad('wrist offset at %d' % i, P=P(i, 0, .05, 0))
            bad('wrist offset at %d' % i, P=P(i, *fwd))
    else:
        for i, d in ((1, (.05, 0, 0)), (4, (.05, 0, 0)), (5, (.05, 0, 0)), (6, (.05, 0, 0)), (1, (0, 0, .05)), (2, (0, 0, .05)), (3, (0, 0, -.05)), (5, (0, 0, .05)), (6, (0, 0, .05))):
            bad('link vector %d off layout' % i, P=P(i, *d))
        bad('base elsewhere', base=[np.eye(3).tolist() if s0.get('base') is None else s0['base'][0], [.1, 0, 0]])
        for d in ((0, .1, 0), (0, 0, .4), (0, 0, -.01), (-1e-3, 0, 0), (0, 1e-3, 0)):
            bad('base elsewhere', base=[np.eye(3).tolist() if s0.get('base') is None else s0['base'][0], list(d)])
        for k, a in (((1, 0, 0), .01), ((0, 1, 0), -1e-3), ((0, 0, 1), 1e-3), ((0, 0, 1), PI), ((1, 0, 0), PI), ((0, 1, 0), PI)):
            bad('base turned a little or by half a turn', base=[(np.eye(3) if s0.get('base') is None else np.array(s0['base'][0])).dot(ref.rotm(k, a)).tolist(), [0, 0, 0]])
        bad('base turned', base=[ref.rotm((0, 0, 1), PI / 2).tolist(), [0, 0, 0]])
        bad('base tilted', base=[ref.rotm((1, 0, 0), .3).tolist(), [0, 0, 0]])
        h = [[-x for x in v] for v in s0['H']]
        bad('all axes reversed', H=h)
        for i in range(6):
            h = [list(v) for v in s0['H']]
            h[i] = [-x for x in h[i]]
            bad('axis %d reversed' % (i + 1), H=h)
    for what, s in bads:
        refuse(lambda: fn(robots.build(s)), what)
        refuse(lambda: R.TesseractRobot(robots.build(s), 'arm', solver), what)


REDLIM = [[(-6.2, 6.2), (-2, 2), (-3.1, 9.3)], [(-4, 4)] * 3, [(0, 13.), (-13, 0), (-1, 1)], [(-3, 3.)] * 3, [(-7, 7), (-7, 7), (-7, 7)], [(3, 12), (-12, -3), (-.5, 6.)], [(-20, 20), (-1, 1), (-1, 1)], [(-6.4, -1), (2, 9), (-3.5, 3.5)]]


def k_red(p):
    R = rt()
    types = p['types']
    n = len(types)
    lim = [REDLIM[p['lim']][i % 3] for i in range(n)]
    s = robots.generic(n, types, 2)
    s.update(lower=[float(x[0]) for x in lim], upper=[float(x[1]) for x in lim], vel=[1.] * n, acc=[1.] * n)
    t = R.TesseractRobot(robots.build(s), 'arm')
    for fr in itertools.product((.08, .46, .93), repeat=n):
        q = [l + f * (u - l) for (l, u), f in zip(lim, fr)]
        arg = np.array(q)
        got = t.redundant_solutions(arg)
        need(isinstance(got, list) and np.array_equal(arg, q), 'redundant_solutions modified its argument or gave %r', type(got))
        if p['direct']:
            got2 = R.redundant_solutions(t.tesseract_env.getKinematicGroup('arm'), np.array(q))
            need(len(got2) == len(got) and all(np.array_equal(a, b) for a, b in zip(got, got2)), 'method and function differ')
        alt = [[q[i]] if types[i] else [q[i] + 2 * PI * k for k in range(-8, 9) if lim[i][0] <= q[i] + 2 * PI * k <= lim[i][1]] for i in range(n)]
        want = [x for x in itertools.product(*alt) if max(abs(a - b) for a, b in zip(x, q)) > 1]
        need(len(got) == len(want), 'redundant solutions of %s in %s (types %s): %d, expected %d:\n%s', q, lim, types, len(got), len(want), [list(np.round(x, 3)) for x in got][:20])
        for x in got:
            need(np.asarray(x).shape == (n,), 'shape %s', np.asarray(x).shape)
            need(min((max(abs(a - b) for a, b in zip(x, w)) for w in want), default=9) < 1e-9, 'redundant solution %s of %s in %s', x, q, lim)
        need(len({tuple(np.round(np.asarray(x, dtype=float), 6)) for x in got}) == len(got), 'a redundant solution is repeated')
        tick()


KINDS = dict(opwfk=k_opwfk, opwik=k_opwik, ur=k_ur, kdl=k_kdl, refuse=k_refuse, red=k_red)


def shards(tier):
    return [[tier, i] for i in range(32)]


def space(tier):
    for bend in (0, 2, 3):
        for sg in SIGNS:
            for dim in range(len(OPWDIM)):
                yield 'opwfk', dict(bend=bend, signs=list(sg), dim=dim)
    n = 0
    combos = list(itertools.product(range(8), range(4), range(3)))
    for bend in (0, 2, 3):
        for sg in SIGNS:
            for dim in range(len(OPWDIM)) if tier != 'quick' else [n % len(OPWDIM)]:
                for tilt in range(len(TILT)) if tier != 'quick' else [n // 4 % 5, (n // 4 + 2) % 5] + ([5 + n // 9 % 4] if n % 3 == 0 else []):
                    n += 1
                    yield 'opwik', dict(bend=bend, signs=list(sg), dim=dim, tilt=tilt, split=n % 4, qs=list(range(8)) if tier != 'quick' else [n % 8, (n + 3) % 8, (n + 5) % 8],
                                        combos=combos if tier != 'quick' else combos[n * 7 % 96:][:3] + combos[n * 31 % 90:][:2])
    for sg in (-1, 1):
        for dim in range(len(URD)):
            for split in range(8) if dim < 4 or tier != 'quick' else (dim - 4, dim):
                n += 1
                c = list(itertools.product((0, 1) if sg > 0 else (0,), range(3), range(4), range(3)))
                yield 'ur', dict(sg=sg, dim=dim, split=split, n=10, combos=c if tier != 'quick' else c[n % 4::4])
    for r in range(6):
        for b in (0, 1, 4, 7) if r < 5 else (0, 1, 4, 5):
            for sol in ('KDLInvKinChainLMA', 'KDLInvKinChainNR'):
                n += 1
                yield 'kdl', dict(robot=r, bits=b, solver=sol, choice=n // 2 % 3)
    for bend in (0, 2, 3):
        for k in range(4):
            yield 'refuse', dict(kind='opw', bend=bend, signs=list(SIGNS[(k * 21 + bend) % 64]), tilt=(0, .3, 0, -.6)[k], dim=k)
    for sg in (-1, 1):
        for k in range(4):
            yield 'refuse', dict(kind='ur', sg=sg, dim=k, split=k * 2)
    for lim in range(8):
        for types in ([0], [0, 0], [0, 1], [1, 0], [0, 0, 0], [0, 1, 0], [1, 0, 1], [0, 0, 0, 1], [0, 0, 0, 0]):
            yield 'red', dict(lim=lim, types=types, direct=lim % 2)


def cases(sh):
    tier, i = sh
    for m, (k, p) in enumerate(space(tier)):
        if m % 32 == i:
            yield k, p
