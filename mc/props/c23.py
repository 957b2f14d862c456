"""Robot construction: every presence pattern of options stored faithfully, every single inconsistency refused."""
import itertools, math
import numpy as np
import general_robotics_toolbox as rox
from mc import ref, robots
from mc.core import need, tick, note, Bad

ID = 'C23'
BOUNDS = {'quick': '1 to 7 joints x all 2^13 presence patterns of the 13 options for 2 joints, all single, pairwise and all-but-one patterns for the other joint counts; every joint type vector of '
                   '{0,1,2,3}^n for n<=4; limits/types/names as list, tuple or array; unusual values of each field (identities, empty, repeated and odd names, zeros, infinities, integers, magnitudes 1e-15 to 1e9), alone and beside all options; every single inconsistency: axis count, link count, rows, type count, type values -1, 4, 0.5, 7, each limit '
                   'list too short/long by 1-2, names too short/long, inertia count and shape, each axis scaled by 0.99, 1.01, 0, 2, -1.01, NaN, infinity (each combined with 4 presence patterns)',
          'thorough': 'all 2^13 presence patterns for 1 to 7 joints, inconsistencies combined with 24 patterns'}
ASSUME = ['an axis is clearly not a unit vector when its length is off by 1e-3 or more', 'refused means any exception; nothing is constructed',
          'a lone half of a pair (limits, tool) is dropped; its length is not judged']
OPT = ['joint_lower_limit', 'joint_upper_limit', 'joint_vel_limit', 'joint_acc_limit', 'M', 'R_tool', 'p_tool', 'joint_names', 'root_link_name', 'tip_link_name', 'T_flange', 'T_base']
PAIR = {'joint_lower_limit': 'joint_upper_limit', 'joint_upper_limit': 'joint_lower_limit', 'R_tool': 'p_tool', 'p_tool': 'R_tool'}


def values(n, form=0):
    f = (list, tuple, np.array)[form % 3]
    return dict(
        H=np.array([ref.unit((math.cos(i + .3), math.sin(2 * i + 1.), .4 - i)) for i in range(n)]).T.reshape(3, n).copy(),
        P=np.array([[.1 * i - .2, .03 * i * i, 1. / (1 + i)] for i in range(n + 1)]).T.copy(),
        joint_type=f([0] * n),
        joint_lower_limit=f([-1. - .1 * i for i in range(n)]), joint_upper_limit=f([2. + .2 * i for i in range(n)]),
        joint_vel_limit=f([.5 + .1 * i for i in range(n)]), joint_acc_limit=f([3. + .3 * i for i in range(n)]),
        M=[np.diag([1. + i, 2, 3, 4, 5, 6 + i]) for i in range(n + 1)],
        R_tool=ref.rotm(ref.unit((1, 2, 3)), .4), p_tool=np.array([.1, -.2, .3]), joint_names=['j%d' % (n - i) for i in range(n)],
        root_link_name='base_l', tip_link_name='tip_l', T_flange=rox.Transform(ref.rotm(ref.unit((0, 1, 2)), 1.), [.1, .2, .4], 'x', 'y'),
        T_base=rox.Transform(ref.rotm(ref.unit((3, 1, 2)), -1.), [1, 2, 3]))


def plain(v):
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, rox.Transform):
        return [v.R.tolist(), v.p.tolist(), v.parent_frame_id, v.child_frame_id]
    return [x if isinstance(x, str) else np.asarray(x).tolist() for x in v]


def make(v, present, pos):
    kw = {k: v[k] for k in OPT if k in present}
    if pos:
        return rox.Robot(v['H'], v['P'], v['joint_type'], *[kw.get(k) for k in OPT])
    return rox.Robot(v['H'], v['P'], v['joint_type'], **kw)


def k_ok(p):
    n = p['n']
    for bits in p['bits']:
        v = values(n, bits + n)
        if p.get('types'):
            v['joint_type'] = (list, np.array)[bits % 2](p['types'])
        present = [k for i, k in enumerate(OPT) if bits >> i & 1]
        snap = {k: plain(x) for k, x in v.items()}
        r = make(v, present, bits % 3 == 0)
        tick()
        what = '%d joints, options %s' % (n, present)
        for k in ('H', 'P', 'joint_type'):
            need(plain(getattr(r, k)) == snap[k] and len(getattr(r, k)) == len(v[k]), '%s: %s is %s, given %s', what, k, getattr(r, k), snap[k])
        for k in OPT:
            got = getattr(r, k)
            if k in present and PAIR.get(k, k) in present:
                need(got is not None and plain(got) == snap[k], '%s: %s is %s, given %s', what, k, got, snap[k])
            else:
                need(got is None, '%s: %s is %s but was not (completely) given', what, k, got)
        need(all(plain(v[k]) == snap[k] for k in v), '%s: an argument was modified', what)
        need(np.shape(r.H) == (3, n) and np.shape(r.P) == (3, n + 1), '%s: shapes', what)


BAD = {}


def bad(f):
    BAD[f.__name__] = f
    return f


@bad
def axis_len(v, n, i, x):
    v['H'][:, i] *= x


@bad
def axis_pair(v, n, i, x):
    v['H'][:, i[0]] *= x[0]
    v['H'][:, i[1]] *= x[1]


@bad
def p_cols(v, n, i, x):
    v['P'] = np.array([[.1] * (n + 1 + x)] * 3)


@bad
def h_cols(v, n, i, x):
    v['H'] = np.array([ref.unit((1, k, 2)) for k in range(n + x)]).T.reshape(3, n + x)


@bad
def h_and_p(v, n, i, x):
    h_cols(v, n, i, x)
    p_cols(v, n, i, x)


@bad
def rows(v, n, i, x):
    if x == 'P2':
        v['P'] = v['P'][:2]
    elif x == 'P4':
        v['P'] = np.vstack([v['P'], v['P'][:1]])
    elif x == 'H2':
        v['H'] = np.array([[1.] * n, [0.] * n])
    elif x == 'H4':
        v['H'] = np.vstack([v['H'], np.zeros((1, n))])
    else:
        v['H'] = v['H'].T if n != 3 else np.vstack([v['H'], np.zeros((1, n))])


@bad
def types(v, n, i, x):
    t = [0] * n
    t[i] = x
    v['joint_type'] = t


@bad
def type_count(v, n, i, x):
    v['joint_type'] = [0] * (n + x)


@bad
def length(v, n, i, x):
    k = OPT[i]
    a = list(v[k])
    v[k] = a[:x] if x < 0 else a + a[:1] * x


@bad
def m_shape(v, n, i, x):
    v['M'][i] = np.zeros(x)


@bad
def m_count(v, n, i, x):
    v['M'] = v['M'][:x] if x < 0 else v['M'] + [np.eye(6)] * x


def k_bad(p):
    for bits in p['bits']:
        v = values(p['n'], bits)
        present = set(k for i, k in enumerate(OPT) if bits >> i & 1)
        for k in p.get('with', []):
            present.add(k)
        BAD[p['f']](v, p['n'], p['i'], p['x'])
        what = '%d joints, %s %s %s, options %s' % (p['n'], p['f'], p['i'], p['x'], sorted(present))
        tick()
        try:
            make(v, present, bits % 2)
        except Exception:
            note('refused ' + p['f'])
            continue
        raise Bad('accepted: ' + what)


# unusual but consistent values of one option: identities, empty names, zeros, tiny and huge numbers, repeated names, integers
I3, TR = np.eye(3), rox.Transform
UNUSUAL = dict(
    root_link_name=['', 'a b', '0', 'world', 'x' * 300, '\u00e4'], tip_link_name=['', 'base_l', '/x/y', 'tool0'],
    joint_names=[lambda n: [''] * n, lambda n: ['same'] * n, lambda n: [str(i) for i in range(n)], lambda n: ['Joint_%d ' % i for i in range(n)]],
    T_flange=[TR(I3, [0, 0, 0]), TR(I3, [1e-10, 0, 0]), TR(ref.rotm((0, 0, 1), 1e-9), [0, 0, 0]), TR(I3, [0, 0, 0], '', ''), TR(ref.rotm((1, 0, 0), np.pi), [1e9, 0, -1e9], 'a', 'a')],
    T_base=[TR(I3, [0, 0, 0]), TR(I3, [0, 1e-10, 0]), TR(ref.rotm((1, 0, 0), -1e-9), [0, 0, 0]), TR(I3, [0, 0, 0], None, 'b'), TR(ref.rotm((0, 1, 0), np.pi), [1e9, 0, -1e9], 'a')],
    tool=[(I3, np.zeros(3)), (ref.rotm((0, 1, 0), 1e-9), np.zeros(3)), (I3, np.array([1e-10, -1e-12, 1e-15])), (ref.rotm((1, 0, 0), np.pi), np.array([1e7 + 1e-3, 123.456789012345, 0])), (I3, np.array([0, 0, 1]))],
    limits=[lambda n: ([0.] * n, [0.] * n), lambda n: ([-np.inf] * n, [np.inf] * n), lambda n: ([-1e-9] * n, [1e-9] * n), lambda n: ([-1e6 - .123456789] * n, [1e6 + .123456789] * n), lambda n: ([1 + i for i in range(n)], [2 + i for i in range(n)]),
            lambda n: ([-3 - i for i in range(n)], [-1 - i for i in range(n)]), lambda n: ([-180.] * n, [180.] * n)],
    joint_vel_limit=[lambda n: [0.] * n, lambda n: [np.inf] * n, lambda n: [1e-9] * n, lambda n: [1] * n, lambda n: [1e9 + .1] * n, lambda n: [0.] + [1.] * (n - 1)],
    joint_acc_limit=[lambda n: [0.] * n, lambda n: [np.inf] * n, lambda n: [1e-9] * n, lambda n: [2] * n, lambda n: [1e9 + .1] * n, lambda n: [1.] * (n - 1) + [0.]],
    M=[lambda n: [np.zeros((6, 6))] * (n + 1), lambda n: [np.eye(6) * 1e-12] * (n + 1), lambda n: [np.arange(36.).reshape(6, 6) + i for i in range(n + 1)], lambda n: [np.eye(6, dtype=int) * i for i in range(n + 1)]],
    P=[lambda n: np.zeros((3, n + 1)), lambda n: np.full((3, n + 1), 1e-10), lambda n: np.full((3, n + 1), 1e7 + .123), lambda n: np.arange(3 * (n + 1)).reshape(3, n + 1), lambda n: np.full((3, n + 1), -0.)],
    H=[lambda n: np.array([[0, 0, 1]] * n).T, lambda n: np.array([[0, -1., 0]] * n).T, lambda n: np.array([ref.unit((1e-9, 1, 1e-6))] * n).T, lambda n: np.array([ref.unit((1, -1e-4, 0))] * n).T,
       lambda n: np.array([np.array([0, 0, 1.]) * (1 + 3e-7)] * n).T])


def k_unusual(p):
    n = p['n']
    for full in (0, 1):
        v = values(n, n + full)
        x = UNUSUAL[p['f']][p['i']]
        if callable(x):
            x = x(n)
        f = (list, np.array, tuple)[(n + full + p['i']) % 3]
        keys = [p['f']]
        if p['f'] == 'tool':
            keys = ['R_tool', 'p_tool']
            v['R_tool'], v['p_tool'] = x
        elif p['f'] == 'limits':
            keys = ['joint_lower_limit', 'joint_upper_limit']
            v[keys[0]], v[keys[1]] = f(x[0]), f(x[1])
        elif p['f'] in ('joint_vel_limit', 'joint_acc_limit'):
            v[p['f']] = f(x)
        else:
            v[p['f']] = x
        snap = {k: plain(a) for k, a in v.items()}
        present = OPT if full else [k for k in keys if k in OPT]
        r = make(v, present, n % 2)
        tick()
        for k in ['H', 'P', 'joint_type'] + OPT:
            g = getattr(r, k)
            if k in present or k in ('H', 'P', 'joint_type'):
                need(g is not None and plain(g) == snap[k], '%d joints, %s number %d: %s is %s, given %s', n, p['f'], p['i'], k, g, snap[k])
            else:
                need(g is None, '%d joints, %s number %d: %s is %s but was not given', n, p['f'], p['i'], k, g)
        need(all(plain(v[k]) == snap[k] for k in v), '%s number %d: an argument was modified', p['f'], p['i'])


KINDS = dict(ok=k_ok, bad=k_bad, unusual=k_unusual)


def shards(tier):
    return [[tier, n] for n in range(1, 8)] + [[tier, 'types']]


def cases(sh):
    tier, n = sh
    q = tier == 'quick'
    full = (1 << 12) - 1
    if n == 'types':
        for k in range(1, 5):
            for t in itertools.product((0, 1, 2, 3), repeat=k):
                yield 'ok', dict(n=k, types=t, bits=[0, 3, full])
        return
    if n == 2 or not q:
        al = list(range(full + 1))
    else:
        al = sorted(set([0, full] + [1 << i for i in range(12)] + [full ^ (1 << i) for i in range(12)] + [(1 << i) | (1 << j) for i in range(12) for j in range(i)]))
    for i in range(0, len(al), 64):
        yield 'ok', dict(n=n, bits=al[i:i + 64])
    for f in UNUSUAL:
        for i in range(len(UNUSUAL[f])):
            yield 'unusual', dict(n=n, f=f, i=i)
    B = [0, full, 0b000010000011, 0b111101101100] if q else [0, full] + [1 << i for i in range(12)] + [(7 << i) & full for i in range(10)]
    Bf = lambda f, i, x, w=(): ('bad', dict(n=n, f=f, i=i, x=x, bits=B, **({'with': list(w)} if w else {})))
    for i in range(n):
        for x in (.99, 1.01, 0., 2., -1.01, .999, 1.001, 1e3, math.nan, math.inf):
            yield Bf('axis_len', i, x)
        for j in range(n):
            if i != j:
                for x in ((1.2, math.sqrt(2 - 1.44)), (2., .5), (1.3, .7), (1.1, 1 / 1.1), (.5, .5)):
                    yield Bf('axis_pair', (i, j), x)
        for x in (-1, 4, .5, 7, 100, '0'):
            yield Bf('types', i, x)
    for x in (-1, 1, 2, -2):
        if n + x >= 0:
            yield Bf('p_cols', 0, x)
            yield Bf('type_count', 0, x)
        if n + x >= 1:
            yield Bf('h_cols', 0, x)
            yield Bf('h_and_p', 0, x)
    for x in ('P2', 'P4', 'H2', 'H4', 'T'):
        yield Bf('rows', 0, x)
    for i in (0, 1, 2, 3, 7):
        for x in (-1, 1, 2) + ((-2,) if n > 2 else ()):
            yield Bf('length', i, x, [OPT[i]] + ([PAIR[OPT[i]]] if OPT[i] in PAIR else []))
    for i in range(n + 1):
        for x in ((6, 5), (3, 3), (6,), (7, 7), (5, 6), (1, 6, 6)):
            yield Bf('m_shape', i, x, ['M'])
    for x in (-1, 1, -2, 2):
        if n + 1 + x >= 0:
            yield Bf('m_count', 0, x, ['M'])
