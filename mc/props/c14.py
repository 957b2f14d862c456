"""Base, flange and tool transforms: all presence combinations x transform alphabets x apply/unapply sequences."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots
from mc.core import need, tick, note, state

ID = 'C14'
PI = math.pi
BOUNDS = {'quick': 'all 8 presence combinations (and 4 with only half of the tool pair given) x base, flange, tool from 5 transforms each (and small corrections of .03 to 3e-8) x 7 poses (with and without frame names); '
                   'all 2^5 sequences of up to 5 apply/unapply steps on the same robot against the group model; joint 6 of fwdkin and an inverse kinematics round trip as consumers; all words of 2 changes (replace, remove, overwrite in place) of the transforms of one robot from all 8 presence combinations, with all queries after every change',
          'thorough': '9 transforms each, 12 poses, sequences of 8, words of 3 changes'}
ASSUME = ['equality within 1e-11 relative to the translation size', 'tool given as a rotation matrix and a vector of three elements']
AL = [((1, 2, 3), .7, (.3, -.2, .5)), ((0, 0, 1), PI / 2, (0, 0, 0)), ((1, 0, 0), PI, (1., 2., 3.)), ((1, 1, 1), 2 * PI / 3, (-40., .001, 7.)), ((1, 0, 0), 0., (.1, 0, -.2)),
      ((0, 1, 0), -PI / 2, (0, 0, .3)), ((-1, 2, 5), 3.1, (1e-4, 2e3, -5.)), ((1, -1, 0), -1e-5, (0, 1, 0)), ((2, 0, 1), 1.2, (-.6, -.6, -.6))] + [((1, 2, 3), e, (e, -e, .5 * e)) for e in robots.TINY]
AL += [((1, -2, 3), e, (0, 0, 0)) for e in robots.TINY] + [((0, 0, 1), 0., (e, 0, 0)) for e in robots.TINY]


def th(i):
    k, a, p = AL[i]
    return ref.hom(ref.rotm(ref.unit(k), a), p)


def spec(p):
    s = robots.puma()
    for n in ('base', 'flange', 'tool'):
        if p[n] is not None:
            M = th(p[n])
            s[n] = [M[:3, :3].tolist(), M[:3, 3].tolist()]
    return s


def snap(r, T):
    out = [r.H.tobytes(), r.P.tobytes(), T.R.tobytes(), T.p.tobytes(), T.parent_frame_id, T.child_frame_id]
    for t in (r.T_base, r.T_flange):
        out.append(None if t is None else (t.R.tobytes(), t.p.tobytes(), t.parent_frame_id, t.child_frame_id))
    return out + [None if x is None else np.array(x).tobytes() for x in (r.R_tool, r.p_tool)]


def same(T, M, what):
    need(isinstance(T, rox.Transform), '%s gave %r', what, T)
    s = max(1., float(np.max(np.abs(M[:3, 3]))))
    need(np.shape(T.R) == (3, 3) and np.shape(T.p) == (3,), '%s: shapes %s %s', what, np.shape(T.R), np.shape(T.p))
    need(np.max(np.abs(T.R - M[:3, :3])) < 1e-11 and np.max(np.abs(T.p - M[:3, 3])) < 1e-11 * s, '%s: pose is\n%s\nexpected\n%s', what, robots.toH(T), M)


def parts(s):
    g = lambda n: np.eye(4) if s.get(n) is None else ref.hom(np.array(s[n][0]), s[n][1])
    return g('base'), g('flange') @ g('tool')


def k_aux(p):
    s = spec(p)
    r = robots.build(s)
    B, A = parts(s)
    scale = 1 + max(np.max(np.abs(B[:3, 3])), np.max(np.abs(A[:3, 3])))
    for i, names in p['poses']:
        M = th(i)
        T = robots.TH(M, *names)
        before = snap(r, T)
        what = 'base %s flange %s tool %s pose %d' % (p['base'], p['flange'], p['tool'], i)
        a = rox.apply_robot_aux_transforms(r, T)
        same2(a, B @ M @ A, 'apply: ' + what, scale)
        need(snap(r, T) == before, 'apply modified the robot or the pose: ' + what)
        u = rox.unapply_robot_aux_transforms(r, T)
        same2(u, ref.hinv(B) @ M @ ref.hinv(A), 'unapply: ' + what, scale)
        need(snap(r, T) == before, 'unapply modified the robot or the pose: ' + what)
        same2(rox.unapply_robot_aux_transforms(r, a), M, 'unapply(apply): ' + what, scale)
        same2(rox.apply_robot_aux_transforms(r, u), M, 'apply(unapply): ' + what, scale)
        need(snap(r, T) == before, 'the robot or the pose was modified: ' + what)
        tick(4)


def same2(T, M, what, scale):
    need(isinstance(T, rox.Transform), '%s gave %r', what, T)
    need(np.shape(T.R) == (3, 3) and np.shape(T.p) == (3,), '%s: shapes %s %s', what, np.shape(T.R), np.shape(T.p))
    s = scale * max(1., float(np.max(np.abs(M[:3, 3]))))
    need(np.max(np.abs(T.R - M[:3, :3])) < 1e-11 and np.max(np.abs(T.p - M[:3, 3])) < 1e-11 * s, '%s: pose is\n%s\nexpected\n%s', what, robots.toH(T), M)


def k_half(p):
    """Only half of the tool pair given: no tool."""
    s = spec(dict(base=p['base'], flange=p['flange'], tool=None))
    M = th(p['t'])
    over = dict(R_tool=M[:3, :3].copy()) if p['half'] == 'R' else dict(p_tool=M[:3, 3].copy())
    r = robots.build(s, **over)
    B, A = parts(s)
    for i in range(3):
        T = robots.TH(th(i))
        same2(rox.apply_robot_aux_transforms(r, T), B @ th(i) @ A, 'apply with half a tool', 50)
        same2(rox.unapply_robot_aux_transforms(r, T), ref.hinv(B) @ th(i) @ ref.hinv(A), 'unapply with half a tool', 50)
        tick(2)


def k_seq(p):
    """All sequences of apply (A) and unapply (U) steps up to a depth; the model counts the net number."""
    s = spec(p)
    r = robots.build(s)
    B, A = parts(s)
    Bi, Ai = ref.hinv(B), ref.hinv(A)
    T0 = robots.TH(th(p['pose']), 'a', 'b')
    before = snap(r, T0)

    def rec(T, M, h):
        state([p['base'], p['flange'], p['tool'], h])
        if len(h) == p['depth']:
            return
        for op, f, M2 in (('A', rox.apply_robot_aux_transforms, B @ M @ A), ('U', rox.unapply_robot_aux_transforms, Bi @ M @ Ai)):
            T2 = f(r, T)
            tick()
            same2(T2, M2, 'sequence %s' % (h + op), 100)
            rec(T2, M2, h + op)
    rec(T0, th(p['pose']), '')
    need(snap(r, T0) == before, 'a sequence of apply and unapply modified the robot or the first pose')


def k_use(p):
    """Consumers agree: the pose of a robot with transforms equals apply(pose of the bare robot)."""
    s = spec(p)
    r, bare = robots.build(s), robots.build(robots.puma())
    for q in ([0] * 6, [.3, -.2, .5, 1.1, .7, -.4], [-2, .4, 1, -1, -.8, 2]):
        q = np.array(q, dtype=float)
        T = rox.fwdkin(r, q)
        same2(T, robots.toH(rox.apply_robot_aux_transforms(r, rox.fwdkin(bare, q))), 'fwdkin with transforms', 1e3)
        same2(rox.unapply_robot_aux_transforms(r, T), robots.toH(rox.fwdkin(bare, q)), 'unapply(fwdkin)', 1e3)
        tick(4)


def k_mut(p):
    """The caller changes the transforms of one robot between calls: every word of changes."""
    s0 = spec(p)
    q = np.array([.3, -.2, .5, 1.1, .7, -.4])
    F = robots.toH(rox.fwdkin(robots.build(robots.puma()), q))
    for word in itertools.product(CH, repeat=p['len']):
        r = robots.build(s0)
        m = {n: None if p[n] is None else th(p[n]) for n in ('base', 'flange', 'tool')}
        for step in ((None,),) + word:
            if step[0] is not None:
                n, v, how = step
                if how == 'in':
                    if m[n] is None:
                        continue
                    m[n] = th(v)
                    if n == 'tool':
                        r.R_tool[:], r.p_tool[:] = m[n][:3, :3], m[n][:3, 3]
                    else:
                        t = getattr(r, 'T_' + n)
                        t.R[:], t.p[:] = m[n][:3, :3], m[n][:3, 3]
                else:
                    m[n] = None if v is None else th(v)
                    if n == 'tool':
                        r.R_tool, r.p_tool = (None, None) if v is None else (m[n][:3, :3].copy(), m[n][:3, 3].copy())
                    else:
                        setattr(r, 'T_' + n, None if v is None else robots.TH(m[n]))
            g = lambda n: np.eye(4) if m[n] is None else m[n]
            B, A = g('base'), g('flange') @ g('tool')
            X = th(2)
            what = 'from base %s flange %s tool %s after %s: ' % (p['base'], p['flange'], p['tool'], word)
            same2(rox.apply_robot_aux_transforms(r, robots.TH(X)), B @ X @ A, what + 'apply', 1e3)
            same2(rox.unapply_robot_aux_transforms(r, robots.TH(X)), ref.hinv(B) @ X @ ref.hinv(A), what + 'unapply', 1e3)
            same2(rox.fwdkin(r, q), B @ F @ A, what + 'fwdkin', 1e3)
            tick(3)
            state(['mut', p['base'], p['flange'], p['tool'], step])


CH = [(n, v, h) for n in ('base', 'flange', 'tool') for v, h in ((None, 'set'), (0, 'set'), (3, 'set'), (4, 'in'))]
KINDS = dict(aux=k_aux, half=k_half, seq=k_seq, use=k_use, mut=k_mut)


def shards(tier):
    return [[tier, i] for i in range(8)]


def cases(sh):
    tier, i = sh
    n = 5 if tier == 'quick' else 9
    names = [(None, None), ('world', 'tool0'), (None, 'c'), ('p', None)]
    poses = [(k, names[k % 4]) for k in range(7 if tier == 'quick' else 9)]
    al = [None] + list(range(n))
    for m, (b, f, t) in enumerate(itertools.product(al, repeat=3)):
        if m % 8 == i:
            p = dict(base=b, flange=f, tool=t)
            yield 'aux', dict(p, poses=poses)
            if tier != 'quick' or m % 3 == 0:
                yield 'use', p
    for v in range(9, len(AL)):
        # small corrections, alone and beside others
        for m, p in enumerate(itertools.product((None, 0, v), repeat=3)):
            if v in p and m % 8 == i:
                yield 'aux', dict(base=p[0], flange=p[1], tool=p[2], poses=poses[:3] + [(v, names[m % 4])])
                yield 'use', dict(base=p[0], flange=p[1], tool=p[2])
    for m, (b, f, t) in enumerate(itertools.product((None, 0, 3), (None, 4, 2), (None, 1, 0))):
        if m % 8 == i:
            yield 'seq', dict(base=b, flange=f, tool=t, pose=m % 5, depth=5 if tier == 'quick' else 8)
    for m, (b, f, t) in enumerate(itertools.product((None, 1), repeat=3)):
        if m == i:
            yield 'mut', dict(base=b, flange=f, tool=t, len=2 if tier == 'quick' else 3)
    for b, f in itertools.product((None, 0), (None, 3)):
        for h in 'Rp':
            if (n + i) % 2:
                yield 'half', dict(base=b, flange=f, t=i, half=h)
