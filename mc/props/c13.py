"""Iterative inverse kinematics: truthful convergence over robots x seed lattices x step limits x tolerances."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots
from mc.robots import mk, aux, X, Y, Z, NX, O, generic
from mc.core import need, tick, note

ID = 'C13'
PI = math.pi
BOUNDS = {'quick': '20 robots of 1 to 7 joints (serial arms with both wrist kinds, SCARA, gantry, generic with every revolute/prismatic mix up to 3 joints) x the 8 base/flange/tool patterns; '
                   'from each of 3 nonsingular targets all seeds of {-.15,0,.15}^n (n<=4; corner and single-joint seeds for more) must converge; far seeds {-2.5..2.5} lattices, whole-turn '
                   'offsets of the seed up to +-4 turns, seeds half a turn off in any joint, unreachable poses, all step limits 0..40, tolerances 1e-2..1e-11 (seeds 0.1 to 1e-8 off for the tight ones), 3 gain pairs, seeds as list/tuple/array/integers',
          'thorough': '6 targets, {-.15,-.07,0,.07,.15}^n for n<=4 and 2^n corners for all, step limits up to 200'}
ASSUME = ['within the tolerance: every component of the position error and of sin(angle/2)*axis in some orthonormal frame, i.e. norms below sqrt(3) tol',
          'nearby: each joint within 0.15 (rad or m) of the target; away from singularities: smallest singular value of the Jacobian (of rank min(6,n)) above 0.05',
          'half a turn is allowed 1e-9 of rounding']


def robot(p):
    n = p['r']
    if isinstance(n, list):
        s = generic(len(n), n, p.get('g', 0))
    else:
        s = getattr(robots, n)() if not n.startswith('ur') else robots.ur(*getattr(robots, n.upper()))
    return aux(s, p['aux'])


def run(spec, T, seed, form=0, **kw):
    r = robots.build(spec)
    Tt = robots.TH(T)
    f = [lambda x: np.array(x, dtype=float), list, tuple, lambda x: np.array(x, dtype=float).reshape(-1)][form % 4](seed)
    out = rox.iterative_invkin(r, Tt, f, **kw)
    tick()
    what = 'iterative_invkin(%d joints %s, seed %s, %s)' % (len(seed), spec['type'], f, {k: (v.tolist() if hasattr(v, 'tolist') else v) for k, v in kw.items()})
    need(len(out) == 2, '%s returned %r', what, out)
    conv, qs = out
    need(isinstance(conv, (bool, np.bool_)), '%s: convergence is %r', what, conv)
    need([float(x) for x in f] == [float(x) for x in seed], '%s modified the seed', what)
    need(np.array_equal(Tt.R, T[:3, :3]) and np.array_equal(Tt.p, T[:3, 3]), '%s modified the pose', what)
    need(len(qs) == 1, '%s returned %d joint vectors', what, len(qs))
    q = np.asarray(qs[0], dtype=float)
    need(q.shape == (len(seed),), '%s returned a joint vector of shape %s', what, q.shape)
    need(np.all(np.isfinite(q)), '%s returned %s', what, q)
    for j, t in enumerate(spec['type']):
        if t == 0:
            need(abs(q[j] - seed[j]) <= PI + 1e-9, '%s: joint %d is %g, more than half a turn from the seed %g', what, j, q[j], seed[j])
    if conv:
        tol = kw.get('tol', 1e-4)
        T2 = ref.fk(spec, q)
        e = np.linalg.norm(T2[:3, 3] - T[:3, 3])
        a = ref.angle_between(T2[:3, :3], T[:3, :3])
        sc = 1 + np.max(np.abs(q))
        need(e <= math.sqrt(3) * tol + 1e-12 * sc, '%s reported convergence but the position is off by %g', what, e)
        need(math.sin(a / 2) <= math.sqrt(3) * tol + 1e-12, '%s reported convergence but the orientation is off by %g', what, a)
    note('converged' if conv else 'not converged')
    return bool(conv), q, what


def sigma(spec, q):
    s = np.linalg.svd(ref.jac(spec, q), compute_uv=False)
    return float(s[-1])


def k_near(p):
    spec = robot(p)
    T = ref.fk(spec, p['q'])
    need(sigma(spec, p['q']) > .05, 'target is singular: %s', p)
    for n, d in enumerate(p['d']):
        seed = [a + b for a, b in zip(p['q'], d)]
        conv, q, what = run(spec, T, seed, n, **p['kw'])
        need(conv, '%s does not converge although the seed is near the target %s', what, p['q'])
        if len(seed) <= 6 and sigma(spec, p['q']) > .1:
            need(all(abs(a - b) < .05 for a, b in zip(q, p['q'])), '%s converged to %s instead of %s', what, q.tolist(), p['q'])


def k_far(p):
    """Anything may happen, except claiming convergence wrongly."""
    spec = robot(p)
    T = ref.fk(spec, p['q'])
    for n, seed in enumerate(p['seeds']):
        run(spec, T, seed, n, **p['kw'])


def k_turn(p):
    """Whole-turn offsets of the seed do not change the outcome modulo whole turns; prismatic joints stay."""
    spec = robot(p)
    T = ref.fk(spec, p['q'])
    c0, q0, _ = run(spec, T, p['seed'])
    for n, k in enumerate(p['k']):
        seed = [s + (2 * PI * k[j % len(k)] if t == 0 else 0) for j, (s, t) in enumerate(zip(p['seed'], spec['type']))]
        c, q, what = run(spec, T, seed, n)
        if not p['near']:
            continue
        need(c == c0, '%s: convergence %s, but %s from the same seed without whole turns', what, c, c0)
        if c and sigma(spec, p['q']) > .05:
            for j, t in enumerate(spec['type']):
                a = q[j] - (2 * PI * k[j % len(k)] if t == 0 else 0)
                need(abs(a - q0[j]) < 1e-3, '%s: joint %d is %g instead of %g', what, j, a, q0[j])


def k_steps(p):
    spec = robot(p)
    T = ref.fk(spec, p['q'])
    first = None
    for n in p['n']:
        kw = dict(p['kw'], max_steps=n)
        conv, q, what = run(spec, T, p['seed'], n, **kw)
        if n == 0:
            need(not conv, '%s: no steps are allowed but it reports convergence', what)
        if n == 0 or all(a == b for a, b in zip(p['seed'], p['q'])):
            need(np.max(np.abs(q - np.array(p['seed']))) < 1e-9, '%s: moved to %s without reason', what, q.tolist())
        if n >= 1 and all(a == b for a, b in zip(p['seed'], p['q'])):
            need(conv, '%s: the seed is the solution but it does not converge', what)
        if conv and first is None:
            first = n
    note('first converged at %s' % (first if first is None else '%d-%d' % (first // 10 * 10, first // 10 * 10 + 9)))


def k_unreach(p):
    spec = robot(p)
    T = ref.fk(spec, p['q'])
    T = T @ ref.hom(ref.rotm(ref.unit(p['ax']), p['th']), p['dp'])
    for n, seed in enumerate(p['seeds']):
        conv, q, what = run(spec, T, seed, n, **p['kw'])
        need(not conv, '%s reports convergence to an unreachable pose', what)


KINDS = dict(near=k_near, far=k_far, turn=k_turn, steps=k_steps, unreach=k_unreach)
NAMED = ['puma', 'abb', 'ur5e', 'sawyer', 'scara', 'gantry']
MIX = [list(t) for n in (1, 2, 3) for t in itertools.product((0, 1), repeat=n)] + [[0, 1, 0, 0], [0, 0, 1, 0, 1], [0, 0, 0, 0, 0, 0], [1, 0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0, 0], [0, 1, 0, 0, 1, 0]]
ALL = NAMED + MIX
GAINS = [{}, dict(Kp=(.5 * np.eye(3)), KR=(.7 * np.eye(3))), dict(Kp=np.diag([.2, .3, .25]), KR=np.diag([.4, .3, .35]), max_steps=400)]
NGEN = {1: 1, 2: 1, 3: 1}


def njoints(r):
    return len(r) if isinstance(r, list) else (7 if r == 'sawyer' else 4 if r == 'scara' else 3 if r == 'gantry' else 6)


def targets(r, m):
    """Deterministic nonsingular targets."""
    out, i = [], 0
    spec = robot(dict(r=r, aux=0))
    while len(out) < m and i < 200:
        q = [round(math.sin(1.3 * i + 2.1 * j + .7) * (1.4 if t == 0 else .8), 3) for j, t in enumerate(spec['type'])]
        if sigma(spec, q) > .08 and all(sigma(aux(spec, b), q) > .06 for b in (1, 2, 4, 7)):
            out.append(q)
        i += 1
    return out


def jl(kw):
    return {k: (v.tolist() if hasattr(v, 'tolist') else v) for k, v in kw.items()}


def _wrap(f):
    def g(p):
        p = dict(p, kw={k: (np.array(v) if isinstance(v, list) else v) for k, v in p.get('kw', {}).items()})
        return f(p)
    return g


KINDS = {k: _wrap(f) for k, f in KINDS.items()}


def shards(tier):
    return [[tier, i, j] for i in range(len(ALL)) for j in range(3 if tier == 'quick' else 6)]


def cases(sh):
    tier, i, j = sh
    r = ALL[i]
    n = njoints(r)
    q_ = tier == 'quick'
    tg = targets(r, 3 if q_ else 6)
    if j >= len(tg):
        return
    q = tg[j]
    spec = robot(dict(r=r, aux=0))
    for b in range(8):
        D = []
        if n <= 4:
            D = [list(d) for d in itertools.product((-.15, 0, .15) if q_ else (-.15, -.07, 0, .07, .15), repeat=n)]
            if q_ and n == 4:
                D = D[b % 4::4]
        else:
            D = [[s * .15 * (1 if (m * 5 + k * k) % 3 else -1) for k in range(n)] for m in range(3) for s in (1, -1)]
            D += [[.15 * s * (k == m) for k in range(n)] for m in range(n) for s in (1, -1)]
            if not q_:
                D += [list(d) for d in itertools.product((-.15, .15), repeat=n)]
            else:
                D = D[b % 4::4]
        kw = GAINS[(b + j) % 3] if b % 2 else {}
        yield 'near', dict(r=r, aux=b, q=q, d=D, kw=jl(kw))
    b = (i + 3 * j) % 8
    # tight tolerances from near and from very near seeds
    for m, e in enumerate((.1, 3e-3, 1e-5, 1e-6, 3e-7, 1e-8)):
        for tl in (1e-6, 1e-8, 1e-10) if e > 1e-3 else (e * 1e-1, e * 1e-3):
            if tl > 1e-12:
                yield 'near', dict(r=r, aux=(b + m) % 8, q=q, d=[[e * (-1) ** (k + m) for k in range(n)], [e * (k == m % n) for k in range(n)]], kw=dict(tol=tl, max_steps=600))
    tol = (1e-2, 1e-4, 1e-6, 1e-8, 1e-9)[j % 5]
    S = [[(m * 1.7 + k * 2.9) % 5 - 2.5 for k in range(n)] for m in range(6 if q_ else 30)]
    yield 'far', dict(r=r, aux=b, q=q, seeds=S, kw=dict(tol=tol, max_steps=60))
    yield 'far', dict(r=r, aux=b, q=q, seeds=[[0] * n, [1] * n, [-2] * n], kw=dict(max_steps=40))
    # seeds half a turn away in some joints, where the orientation error is a half turn
    rev = [k for k, t in enumerate(spec['type']) if t == 0]
    for h in (PI, -PI, PI - 1e-3, PI - 1e-6):
        S = [[x + h * (k in ks) for k, x in enumerate(q)] for ks in [(k,) for k in rev] + ([tuple(rev[-2:]), tuple(rev[:2]), tuple(rev)] if len(rev) > 1 else [])]
        for ms in (1, 2, 60):
            yield 'far', dict(r=r, aux=b, q=q, seeds=S if ms < 60 else S[-3:], kw=dict(tol=(1e-2, 1e-4, 1e-6)[(j + ms) % 3], max_steps=ms))
    if any(t == 1 for t in spec['type']):
        # prismatic joints far away: several multiples of 2*pi
        q2 = [x + (t and 7.0 * (1 + k)) for k, (x, t) in enumerate(zip(q, spec['type']))]
        yield 'near', dict(r=r, aux=b, q=q, d=[[(t and s * 6.5) for t in spec['type']] for s in (1, -1, 2.2)] if all(spec['type']) else [[0] * n], kw={})
        yield 'far', dict(r=r, aux=b, q=q2, seeds=[q, [0] * n], kw={})
    K = [[1], [-1], [2, -1], [0, 3], [-4, 4, 1]]
    yield 'turn', dict(r=r, aux=(b + 1) % 8, q=q, seed=[x + .1 * (-1) ** k for k, x in enumerate(q)], k=K, near=1, kw={})
    yield 'turn', dict(r=r, aux=(b + 2) % 8, q=q, seed=[x + 1.2 * (-1) ** k for k, x in enumerate(q)], k=K[:2], near=0, kw={})
    N = list(range(0, 41, 1 if j == 0 else 4)) if q_ else list(range(0, 60)) + list(range(60, 200, 10))
    yield 'steps', dict(r=r, aux=b, q=q, seed=[x + .1 for x in q], n=N, kw=dict(tol=tol))
    yield 'steps', dict(r=r, aux=(b + 5) % 8, q=q, seed=q, n=[0, 1, 2, 5, 200], kw={})
    far = dict(q=q, ax=[0, 0, 1], th=0., dp=[30, 20, -25])
    has_p = any(spec['type'])
    if not has_p:
        yield 'unreach', dict(r=r, aux=b, seeds=[q, [0] * n], kw=dict(max_steps=50), **far)
    if n < 4 or has_p and sum(1 for t in spec['type'] if t == 0) < 3:
        # orientation cannot be produced by fewer than three revolute joints (generic)
        if sum(1 for t in spec['type'] if t == 0) < 2:
            yield 'unreach', dict(r=r, aux=b, q=q, ax=[1, 2, -.5], th=1.0, dp=[0, 0, 0], seeds=[q, [.3] * n], kw=dict(max_steps=50))
            yield 'unreach', dict(r=r, aux=b, q=q, ax=[-1, .3, .5], th=.004, dp=[0, 0, 0], seeds=[q, [.3] * n], kw=dict(max_steps=120))
    if r == 'gantry' or r in ([1], [1, 1]):
        yield 'unreach', dict(r=r, aux=b, q=q, ax=[0, 0, 1], th=.01, dp=[0, 0, 0], seeds=[q], kw={})
