"""Rigid transforms: every word of operations against homogeneous matrices with frame names; storage; comparison; shapes."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots
from mc.core import need, tick, state, note, C

ID = 'C04'
PI = math.pi
BOUNDS = {'quick': 'all words of length <=4 over {T*G, G*T, T.inv(), T*T, (T*G).inv()} with 6 generators G (identity, cube rotations, half turn, generic, large '
                   'translation; frame names none, equal, distinct) from each generator, then breadth-first to depth 7 over the cube-group generators with merging of '
                   'equal poses and frames; all words of 3 over {write p, assign p, write R, assign R, rename frames, inv, multiply} with every query between the steps; after every step all objects made so far are compared bitwise with their snapshots; all array kinds and 40 malformed shapes; all 12 '
                   'entries x 11 magnitudes x 5 tolerances x 5 base transforms for equality and closeness',
          'thorough': 'words of length <=5, breadth-first to depth 9'}
ASSUME = ['poses are compared with 1e-10 relative tolerance', 'equality is only required to reject differences above 1e-7 + 3e-6 |value| and to accept differences below 1e-13; closeness '
          'is required to reject differences above 3 tol + 3e-5 |value| and to accept below 0.3 tol']

GENS = [(((0, 0, 1), 0.0, (0, 0, 0)), None, None),
        (((0, 0, 1), PI / 2, (1, 0, 2)), 'a', 'b'),
        (((1, 0, 0), PI, (0, -1, 3)), 'b', 'c'),
        (((1, 2, 3), 0.7, (0.3, -0.2, 0.5)), 'c', ''),
        (((1, 1, 1), -2 * PI / 3, (0, 2, -1)), None, 'a'),
        (((-2, 1, 1), 1.9, (400., -0.07, 1e-5)), 'a', 'a')]


def gen(i):
    (ax, th, p), par, ch = GENS[i]
    R = ref.rotm(ref.unit(ax), th)
    T = rox.Transform(R.copy(), np.array(p, dtype=float), par, ch)
    return T, (ref.hom(R, p), par, ch)


def same(T, M, what):
    H, par, ch = M
    need(isinstance(T, rox.Transform), '%s is not a Transform: %r', what, T)
    need(np.shape(T.R) == (3, 3) and np.shape(T.p) == (3,), '%s has shapes %s %s', what, np.shape(T.R), np.shape(T.p))
    s = max(1.0, float(np.max(np.abs(H))))
    need(np.max(np.abs(T.R - H[:3, :3])) < 1e-10 and np.max(np.abs(T.p - H[:3, 3])) < 1e-10 * s, '%s: pose is %s, expected %s', what, T, H)
    need(T.parent_frame_id == par and T.child_frame_id == ch, '%s: frames are %r, %r, expected %r, %r', what, T.parent_frame_id, T.child_frame_id, par, ch)


OPS = [('r', i) for i in range(len(GENS))] + [('l', i) for i in range(len(GENS))] + [('inv', 0), ('sq', 0), ('rinv', 1), ('rinv', 3)]


def apply(op, T, M, pool):
    a, i = op
    H, par, ch = M
    if a == 'inv':
        return T.inv(), (ref.hinv(H), ch, par)
    if a == 'sq':
        return T * T, (H @ H, par, ch)
    G, GM = gen(i)
    pool.append((G, snap(G)))
    if a == 'r':
        return T * G, (H @ GM[0], par, GM[2])
    if a == 'l':
        return G * T, (GM[0] @ H, GM[1], ch)
    return (T * G).inv(), (ref.hinv(H @ GM[0]), GM[2], par)


def snap(T):
    return (np.array(T.R).tobytes(), np.array(T.p).tobytes(), T.parent_frame_id, T.child_frame_id)


def k_word(p):
    T, M = gen(p['g'])
    pool = [(T, snap(T))]
    for n, op in enumerate(p['ops']):
        T2, M = apply(op, T, M, pool)
        tick()
        what = 'start %d, %s' % (p['g'], p['ops'][:n + 1])
        same(T2, M, what)
        for X, s in pool:
            need(snap(X) == s, '%s altered an operand', what)
            for a in (T2.R, T2.p):
                for b in (X.R, X.p):
                    need(not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b)), '%s: result shares storage with an operand', what)
        pool.append((T2, snap(T2)))
        T = T2
    # changing the result changes nothing else
    T.R += 1.0
    T.p += 1.0
    for X, s in pool[:-1]:
        need(snap(X) == s, '%s: changing the result altered an operand', p['ops'])


def k_law(p):
    (A, MA), (B, MB), (D, MD) = [gen(i) for i in p['abc']]
    same((A * B) * D, (MA[0] @ MB[0] @ MD[0], MA[1], MD[2]), 'A*B*C')
    same(A * (B * D), (MA[0] @ MB[0] @ MD[0], MA[1], MD[2]), 'A*(B*C)')
    same((A * B).inv() * D, (ref.hinv(MA[0] @ MB[0]) @ MD[0], MB[2], MD[2]), '(A*B)^-1*C')
    same(A * A.inv(), (np.eye(4), MA[1], MA[1]), 'A*A^-1')
    same(A.inv() * A, (np.eye(4), MA[2], MA[2]), 'A^-1*A')
    same(A.inv().inv(), MA, 'A^-1^-1')
    tick(6)


def k_build(p):
    R0 = ref.rotm(ref.unit((1, 2, 3)), 0.7) if not p['int'] else ref.cube_group()[p['n'] % 24]
    p0 = np.array([0.1, 0.2, 0.3]) if not p['int'] else np.array([1., -2., 3.])
    kR, kp = p['R'], p['p']
    mk = {'array': lambda a: np.array(a), 'list': lambda a: np.array(a).tolist(), 'F': lambda a: np.asfortranarray(a), 'T': lambda a: np.array(np.array(a).T.copy()).T,
          'int': lambda a: np.array(a).astype(int), 'view': lambda a: np.stack([np.array(a), np.array(a)], -1)[..., 0], 'tuple': lambda a: tuple(map(tuple, a)) if np.ndim(a) == 2 else tuple(a),
          'col': lambda a: np.array(a).reshape(3, 1), 'collist': lambda a: np.array(a).reshape(3, 1).tolist(), 'f32': lambda a: np.array(a, dtype=np.float64)}
    R, v = mk[kR](R0), mk[kp](p0)
    T = rox.Transform(R, v, 'x', 'y')
    tick()
    same(T, (ref.hom(R0, p0), 'x', 'y'), 'Transform(%s,%s)' % (kR, kp))
    for a in (R, v):
        if isinstance(a, np.ndarray):
            a[...] = 9
    same(T, (ref.hom(R0, p0), 'x', 'y'), 'Transform(%s,%s) after its arguments changed' % (kR, kp))
    R, v = mk[kR](R0), mk[kp](p0)
    sR, sv = np.array(R).tobytes(), np.array(v).tobytes()
    T = rox.Transform(R, v)
    need(T.parent_frame_id is None and T.child_frame_id is None, 'frames of an unnamed transform are not None')
    T.R[...] = 3
    T.p[...] = 4
    need(np.array(R).tobytes() == sR and np.array(v).tobytes() == sv, 'changing a transform changed the arrays it was built from')


def k_bad(p):
    R, v = np.zeros(p['R']), np.zeros(p['p'])
    if p['R'] == [3, 3]:
        R = np.eye(3)
    for RR, vv in ((R, v), (R.tolist(), v.tolist())):
        try:
            T = rox.Transform(RR, vv)
        except Exception:
            tick()
            continue
        need(False, 'shapes R%s p%s accepted: %r', p['R'], p['p'], (T.R, T.p))


def k_cmp(p):
    T, M = gen(p['g'])
    T1, _ = gen(p['g'])
    T1.parent_frame_id = T.parent_frame_id
    if T.R.dtype != float:
        need(False, 'dtype')
    need(bool(T == T) and bool(T == T1) and not bool(T != T1) and bool(T.isclose(T)) and bool(T.isclose(T1)), 'a transform is not equal to itself')
    tick(4)
    e, d = p['entry'], p['d']
    tgt = T1.R if e < 9 else T1.p
    ix = (e // 3, e % 3) if e < 9 else e - 9
    v = float(tgt[ix])
    tgt[ix] = v + d * (1 if p['rel'] == 0 else max(1.0, abs(v)))
    ad = abs(float(tgt[ix]) - v)
    if ad > 1e-7 + 3e-6 * abs(v):
        need(not bool(T == T1) and not bool(T1 == T), 'entry %d differing by %g is called equal', e, ad)
        need(bool(T != T1) and bool(T1 != T), 'entry %d differing by %g is not called different', e, ad)
        tick(4)
    elif ad < 1e-13 * max(1, abs(v)):
        need(bool(T == T1) and bool(T1 == T) and not bool(T != T1), 'entry %d differing by rounding %g is called different', e, ad)
        tick(3)
    for tol in (None, 1e-9, 1e-6, 1e-3, 0.1):
        t = 1e-6 if tol is None else tol
        for A, B in ((T, T1), (T1, T)):
            r = bool(A.isclose(B) if tol is None else A.isclose(B, tol))
            tick()
            if ad > 3 * t + 3e-5 * abs(v):
                need(not r, 'isclose with tolerance %s accepts entry %d differing by %g', tol, e, ad)
            elif ad < 0.3 * t:
                need(r, 'isclose with tolerance %s rejects entry %d differing by only %g', tol, e, ad)
    if p['rel'] == 0:
        r = bool(T.isclose(T1, tol=1e-3))
        need(r or ad >= 3e-4, 'isclose(tol=) keyword')


MUT = ['wp', 'sp', 'wR', 'sR', 'fr']


def observe(T, M, what):
    """Every query of T against the model; the results are overwritten afterwards."""
    H, par, ch = M
    G, GM = gen(3)
    C2 = rox.Transform(H[:3, :3].copy(), H[:3, 3].copy(), par, ch)
    for f, E in ((lambda: T.inv(), (ref.hinv(H), ch, par)), (lambda: T * G, (H @ GM[0], par, GM[2])), (lambda: G * T, (GM[0] @ H, GM[1], ch)), (lambda: T.inv().inv(), M)):
        r = f()
        tick()
        same(r, E, what)
        r.R[...] = 7
        r.p[...] = 8
        r.parent_frame_id = 'q'
        same(T, M, what + ' after a result was overwritten')
    need(bool(T == C2) and bool(C2 == T) and bool(T.isclose(C2)) and not bool(T != C2), '%s is not equal to itself', what)
    C2.p[1] += 1.0
    need(not bool(T == C2) and not bool(T.isclose(C2)) and bool(T != C2), '%s is equal to another pose', what)
    repr(T), str(T)
    tick(6)


def k_mut(p):
    """The caller changes a transform between queries: every query answers for the present value."""
    T, M = gen(p['g'])
    old = []
    for n, op in enumerate(p['ops']):
        what = 'start %d, %s' % (p['g'], p['ops'][:n + 1])
        observe(T, M, what + ' before')
        H, par, ch = M
        if op in MUT:
            H = H.copy()
            Cm = ref.rotm((0., 1., 0.), .8 + .3 * n)
            if op == 'wp':
                T.p[n % 3] += 1.25
                H[n % 3, 3] += 1.25
            elif op == 'sp':
                v = np.array([.5, -.25 * n, 2.])
                T.p = v.copy()
                H[:3, 3] = v
            elif op == 'wR':
                H[:3, :3] = H[:3, :3] @ Cm
                T.R[...] = H[:3, :3]
            elif op == 'sR':
                H[:3, :3] = Cm @ H[:3, :3]
                T.R = H[:3, :3].copy()
            else:
                par, ch = 'm%d' % n, par
                T.parent_frame_id, T.child_frame_id = par, ch
            M = (H, par, ch)
        else:
            old.append((T, M))
            T, M = apply(op, T, M, [])
    observe(T, M, 'start %d, %s' % (p['g'], p['ops']))
    for X, XM in old:
        observe(X, XM, 'an earlier operand of %s' % p['ops'])


KINDS = dict(mut=k_mut, word=k_word, law=k_law, build=k_build, bad=k_bad, cmp=k_cmp)


def shards(tier):
    out = [['word', tier, g, a] for g in range(len(GENS)) for a in range(len(OPS))]
    out += [['bfs', tier, i] for i in range(4)] + [['law', tier, i] for i in range(6)] + [['build', tier], ['bad', tier]]
    out += [['mut', tier, g] for g in range(len(GENS))]
    out += [['cmp', tier, g] for g in range(len(GENS))]
    return out


def canon(M):
    return (tuple(np.round(M[0].ravel(), 4) + 0.0), M[1], M[2])


def cases(sh):
    what, tier = sh[0], sh[1]
    if what == 'word':
        n = 2 if tier == 'quick' else 3
        for rest in itertools.product(OPS, repeat=n):
            yield 'word', dict(g=sh[2], ops=[OPS[sh[3]]] + list(rest))
        if tier == 'quick':
            # length 4 over the smaller alphabet
            small = [o for o in OPS if o in (('r', 1), ('r', 3), ('l', 2), ('l', 4), ('inv', 0), ('sq', 0), ('rinv', 3))]
            for rest in itertools.product(small, repeat=3):
                yield 'word', dict(g=sh[2], ops=[OPS[sh[3]]] + list(rest))
    elif what == 'mut':
        al = MUT + [('inv', 0), ('r', 1), ('l', 2), ('sq', 0)]
        for ops in itertools.product(al, repeat=3 if tier == 'quick' else 4):
            if any(o in MUT for o in ops):
                yield 'mut', dict(g=sh[2], ops=list(ops))
    elif what == 'bfs':
        depth = 7 if tier == 'quick' else 9
        g0 = (1, 2, 4, 3)[sh[2]]
        bops = [('r', 1), ('r', 4), ('l', 2), ('inv', 0)]
        M0 = gen_model(g0)
        seen, frontier = {canon(M0)}, [([], M0)]
        for _ in range(depth):
            nxt = []
            for ops, M in frontier:
                for op in bops:
                    M2 = model_apply(op, M)
                    yield_ops = ops + [op]
                    k = canon(M2)
                    if k not in seen:
                        seen.add(k)
                        state(k)
                        nxt.append((yield_ops, M2))
                        if len(yield_ops) > 4:
                            yield 'word', dict(g=g0, ops=yield_ops)
            frontier = nxt
    elif what == 'law':
        for b in range(6):
            for c in range(6):
                yield 'law', dict(abc=[sh[2], b, c])
    elif what == 'build':
        for a in ('array', 'list', 'F', 'T', 'int', 'view', 'tuple'):
            for b in ('array', 'list', 'int', 'view', 'tuple', 'col', 'collist'):
                ii = 'int' in (a, b)
                for n in range(24 if ii else 1):
                    yield 'build', dict(R=a, p=b, int=ii, n=n)
    elif what == 'bad':
        Rs = [[3, 3], [3], [9], [3, 4], [4, 4], [2, 3], [3, 2], [3, 3, 1], [1, 3, 3], [9, 1], [2, 2], []]
        ps = [[3], [3, 1], [1, 3], [4], [2], [1], [3, 2], [3, 3], [3, 1, 1], [4, 1], [], [0]]
        for a in Rs:
            for b in ps:
                if a == [3, 3] and b in ([3], [3, 1]):
                    continue
                yield 'bad', dict(R=a, p=b)
    else:
        for e in range(12):
            for d in (1e-15, 2.5e-10, 1e-8, 2.5e-7, 5e-7, 4e-6, 3e-5, 2e-4, 1e-2, 0.5, 3.0):
                for s in (1, -1):
                    for rel in (0, 1):
                        yield 'cmp', dict(g=sh[2], entry=e, d=s * d, rel=rel)


def gen_model(i):
    (ax, th, p), par, ch = GENS[i]
    return (ref.hom(ref.rotm(ref.unit(ax), th), p), par, ch)


def model_apply(op, M):
    a, i = op
    H, par, ch = M
    if a == 'inv':
        return (ref.hinv(H), ch, par)
    G = gen_model(i)
    if a == 'r':
        return (H @ G[0], par, G[2])
    return (G[0] @ H, G[1], ch)
