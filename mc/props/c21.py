"""No memory, no side effects: every history of calls up to a depth over a catalogue of calls, with caller-side mutations between them, each from a pristine process."""
import itertools, os, pickle, random, sys, traceback
import numpy as np
import general_robotics_toolbox as rox
from mc import catalog as cat, robots
from mc.core import need, tick, note, state, Bad

ID = 'C21'
BOUNDS = {'quick': '113 calls (45 library functions and loaders with 1-6 argument variants, including refused ones) over shared robots, arrays, transforms, messages and descriptions: every ordered pair of calls x 4 '
                   'ways of connecting them (shared objects; objects and results of the first overwritten by the caller; robots of the first turned into other robots in place; objects discarded), each pair from a '
                   'pristine process and compared with the second call alone in a pristine process; all ordered triples of 14 calls on shared objects; every call under 3 other sets of process settings; every call after the same call with all or one of its arguments off by 1e-3, 1e-5 and 1e-7; every call with Fortran-ordered, strided, read-only and '
                   'integer arguments; after every call all arguments and process settings compared with before; 4 random generators with seeded states',
          'thorough': 'all ordered triples of 60 calls in 2 ways of connecting them'}
ASSUME = ['apply/unapply_robot_aux_transforms may return the pose they are given when there is nothing to apply', 'a Robot keeps the arrays it is constructed from, changing those changes the robot', 'results agree within 1e-9', 'random_R, random_p and random_transform may advance the random state',
          'read-only, Fortran-ordered and strided arrays hold the same values as plain ones']


def child(f):
    """Runs f() in a forked copy of this (pristine) process; returns its value."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(r)
            try:
                v = (0, f())
            except Bad as e:
                v = (1, e.msg)
            except BaseException as e:
                v = (1, 'raised %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-500:]))
            with os.fdopen(w, 'wb') as o:
                pickle.dump(v, o)
            rc = 0
        finally:
            os._exit(rc)
    os.close(w)
    with os.fdopen(r, 'rb') as i:
        d = i.read()
    os.waitpid(pid, 0)
    if not d:
        raise Bad('the process died')
    k, v = pickle.loads(d)
    if k:
        raise Bad(v)
    return v


_base = {}


def alone(name, morphed=()):
    """Outcome of a call on its own in a pristine process."""
    k = (name, tuple(morphed))
    if k not in _base:
        f, keys = OPS[name]
        _base[k] = child(lambda: cat.run(f, [cat.pool(x, morphed) for x in keys])[0])
    return _base[k]


def call(name, args, what, check=True):
    """One call with all side effects checked; returns (normalised outcome, raw result)."""
    f, keys = OPS[name]
    before = [cat.snap(a) for a in args] if check else None
    s = cat.settings() if check else None
    r = cat.run(f, args)
    if check:
        for k, a, b in zip(keys, args, before):
            need(cat.snap(a) == b, '%s%s modified its argument %s', what, name, k)
        t = cat.settings()
        for n, x, y in zip(cat.SET_NAMES, s, t):
            need(x == y, '%s%s changed the %s', what, name, n)
    tick()
    return r


def expect(r, name, what, morphed=()):
    w = alone(name, morphed)
    need(cat.same(r, w), '%s: %s gives\n%s\nalone it gives\n%s', what, name, str(r)[:700], str(w)[:700])


def own(name, raw, args):
    """apply/unapply without anything to apply return the pose itself."""
    return name.split('/')[0] in ('apply', 'unapply') and any(raw is a for a in args)


class Hist(object):
    """A history: calls in a shared pool of objects, connected in a given way."""

    def __init__(self, mode):
        self.mode, self.pool, self.morphed, self.n = mode, {}, set(), 0

    def step(self, n, what, last):
        keys = OPS[n][1]
        for k in keys:
            if k not in self.pool:
                self.pool[k] = cat.pool(k, self.morphed)
        args = [self.pool[k] for k in keys]
        r, raw = call(n, args, what)
        expect(r, n, '%s[%d]' % (what, self.n), tuple(sorted(self.morphed & reach(keys))))
        self.n += 1
        if last:
            return
        mine = own(n, raw, args)
        if self.mode == 'results':
            # the caller overwrites the result: the arguments of the call stay what they were
            if not mine:
                b = [cat.snap(a) for a in args]
                cat.scribble(raw)
                for k, a, x in zip(keys, args, b):
                    need(cat.snap(a) == x, '%s: overwriting the result of %s changed its argument %s', what, n, k)
        elif self.mode == 'args':
            # the caller overwrites result and arguments, later calls get new objects
            keep = cat.norm(raw)
            for a in args:
                cat.scribble(a)
            now = cat.norm(raw)
            need(mine or cat.same(now, keep), '%s: overwriting the arguments of %s changed its result from\n%s\nto\n%s', what, n, str(keep)[:400], str(now)[:400])
            cat.scribble(raw)
            self.pool.clear()
        elif self.mode == 'morph':
            # every robot is turned into another one in place
            for k in keys:
                if k.startswith('robot:') and k not in self.morphed:
                    cat.morph(self.pool[k], k[6:])
                    self.morphed.add(k)
            for k in list(self.pool):
                if k.startswith('pose:'):
                    del self.pool[k]
        elif self.mode == 'gone':
            # objects are dropped, new ones may get their identity
            del args, raw
            self.pool.clear()


def history(names, mode, what):
    h = Hist(mode)
    for i, n in enumerate(names):
        h.step(n, what, i == len(names) - 1)


def reach(keys):
    s = set(keys)
    for k in keys:
        if k.startswith('pose:'):
            s.add('robot:' + k[5:])
    return s


HOW = {'results': ' (results overwritten)', 'args': ' (arguments and results overwritten, new objects)', 'morph': ' (robot changed in place)', 'gone': ' (objects discarded)'}


def k_pair(p):
    """A first call in a pristine process, then every other call, each in its own copy of that process."""
    i = p['i']
    mine = set(OPS[i][1])
    for mode in p['modes']:
        js = NAMES
        if mode == 'morph':
            js = [j for j in NAMES if mine & {k for k in reach(OPS[j][1]) if k.startswith('robot:')}]
        elif mode == 'gone':
            kinds = {k.split(':')[0] for k in mine} - {'s', 'i', 'str'}
            js = [j for j in NAMES if j.split('/')[0] == i.split('/')[0] or kinds & {k.split(':')[0] for k in OPS[j][1]}]
        if not js:
            continue

        def go():
            h = Hist(mode)
            try:
                h.step(i, 'history %s%s' % (i, HOW[mode]), False)
            except Bad as e:
                return [i], e.msg
            for j in js:
                try:
                    child(lambda: h.step(j, 'history %s, %s%s' % (i, j, HOW[mode]), True))
                except Bad as e:
                    return [i, j], e.msg
            return None
        r = child(go)
        if r:
            raise Bad(r[1], 'hist', dict(names=r[0] if len(r[0]) > 1 else [i, i], mode=mode))
        for j in js:
            state([i, j, mode])
        tick(len(js) + 1)


def k_hist(p):
    child(lambda: history(p['names'], p['mode'], 'history %s (%s)' % (p['names'], p['mode'])))
    state(['h', p['names'], p['mode']])
    tick(len(p['names']))


def k_triple(p):
    names = TRI[:p['n']]

    def first():
        h = Hist(p['mode'])
        h.step(p['i'], 'history %s' % p['i'], False)
        for j in names:
            def second():
                h.step(j, 'history %s, %s' % (p['i'], j), False)
                for k in names:
                    try:
                        child(lambda: h.step(k, 'history %s, %s, %s' % (p['i'], j, k), True))
                    except Bad as e:
                        return [p['i'], j, k], e.msg
            r = child(second)
            if r:
                return r
    r = child(first)
    if r:
        raise Bad(r[1], 'hist', dict(names=r[0], mode=p['mode']))
    for j in names:
        for k in names:
            state(['t', p['i'], j, k, p['mode']])
    tick(len(names) ** 2 + len(names) + 1)


def relay(x, how):
    if isinstance(x, np.ndarray) and x.dtype.kind == 'f':
        if how == 'F':
            return np.asfortranarray(x)
        if how == 'stride':
            b = np.full(tuple(2 * n + 1 for n in x.shape), 13.75)
            v = b[tuple(slice(1, None, 2) for _ in x.shape)]
            v[...] = x
            return v
        if how == 'readonly':
            y = x.copy()
            y.flags.writeable = False
            return y
        if how == 'int' and np.all(x == np.round(x)):
            return x.astype(int)
        return x
    if isinstance(x, list) and x and isinstance(x[0], np.ndarray):
        return [relay(a, how) for a in x]
    if isinstance(x, rox.Robot) and how != 'int':
        for n, v in list(vars(x).items()):
            if isinstance(v, np.ndarray):
                setattr(x, n, relay(v, how))
            elif isinstance(v, rox.Transform):
                relay(v, how)
    elif isinstance(x, rox.Transform) and how != 'int':
        x.R, x.p = relay(x.R, how), relay(x.p, how)
    return x


def k_layout(p):
    def go():
        f, keys = OPS[p['op']]
        args = [relay(cat.pool(k), p['how']) for k in keys]
        r, raw = call(p['op'], args, '%s arguments: ' % p['how'])
        expect(r, p['op'], '%s arguments' % p['how'])
        b = [cat.snap(a) for a in args]
        if not own(p['op'], raw, args):
            cat.scribble(raw)
        need([cat.snap(a) for a in args] == b, 'overwriting the result of %s changed an argument', p['op'])
        # same object in several places, twice in a row
        r2, _ = call(p['op'], args, 'again: ')
        expect(r2, p['op'], 'a second call with the same objects')
    child(go)
    tick(2)


def nudge(x, e, c=None):
    """A nearly equal copy of a fresh argument (integers and names stay)."""
    c = c or itertools.count(1)
    if isinstance(x, float):
        return x + e * (1 + .1 * (next(c) % 7))
    if isinstance(x, np.ndarray) and x.dtype.kind == 'f':
        x += e * (1 + .1 * np.reshape([next(c) % 7 for _ in range(x.size)], x.shape))
    elif isinstance(x, list):
        x[:] = [nudge(a, e, c) for a in x]
    elif isinstance(x, dict):
        for k in list(x):
            x[k] = nudge(x[k], e, c)
    elif isinstance(x, rox.Robot):
        # axes keep the layout, all lengths and limits change
        for n, v in vars(x).items():
            if n != 'H':
                if isinstance(v, np.ndarray) and n == 'P':
                    v *= 1 + e
                else:
                    nudge(v, e, c)
    elif isinstance(x, rox.Transform):
        nudge(x.R, e, c), nudge(x.p, e, c)
    elif hasattr(type(x), '__slots__'):
        for n in x.__slots__:
            if isinstance(getattr(x, n), (float, int)):
                setattr(x, n, getattr(x, n) + e)
            else:
                nudge(getattr(x, n), e, c)
    return x


def k_close(p):
    """A call with nearly equal arguments (all, or each one alone) before the call itself."""
    f, keys = OPS[p['op']]
    for e in (1e-3, 1e-5, 1e-7):
        for which in [None] + list(range(len(keys))) * (len(keys) > 1):
            def go():
                args = [cat.pool(k) for k in keys]
                near = [nudge(a, e) if which in (None, m) else a for m, a in enumerate(args)]
                r0, _ = cat.run(f, near)
                r, _ = call(p['op'], [cat.pool(k) for k in keys], 'nearly equal arguments before: ')
                expect(r, p['op'], 'after the same call with arguments off by %g (%s)' % (e, 'all' if which is None else keys[which]))
                return cat.same(r0, r, 1e-12)
            note('near call gives the same' if child(go) else 'near call gives another result')
            tick()


def k_env(p):
    """Every call under other process settings: they stay as they are and do not matter."""
    def go():
        import random, warnings
        for how in (0, 1, 2):
            np.seterr(all=('warn', 'ignore', 'warn')[how])
            if how == 2:
                np.seterr(divide='ignore', under='ignore')
            warnings.resetwarnings()
            warnings.filterwarnings('ignore', category=(Warning, UserWarning, RuntimeWarning)[how])
            if how:
                warnings.filterwarnings('ignore', message='.*')
            np.random.seed(how + 5)
            random.seed(how)
            if how == 1:
                np.set_printoptions(precision=8 - how, suppress=True)
            args = [cat.pool(k) for k in OPS[p['op']][1]]
            r, raw = call(p['op'], args, 'process settings %d: ' % how)
            if p['op'].split('/')[0] not in ('str', 'repr'):
                expect(r, p['op'], 'process settings %d' % how)
    child(go)


def k_random(p):
    def go():
        for seed in range(3):
            f = getattr(rox, p['f'])
            np.random.seed(seed)
            a = cat.norm(f())
            np.random.seed(seed)
            for n in p['between']:
                call(n, [cat.pool(k) for k in OPS[n][1]], 'between random draws: ')
            x = f()
            need(cat.same(cat.norm(x), a), '%s depends on other calls than the random state', p['f'])
            cat.scribble(x)
            np.random.seed(seed)
            need(cat.same(cat.norm(f()), a), '%s depends on its earlier results', p['f'])
            tick(3)
    child(go)


OPS = cat.ops(True)
NAMES = sorted(OPS)
TRI = ['fwdkin/1', 'sphik/2', 'jac/1', 'urik/2', 'equiv/1', 'R2rot/1', 'apply/0', 'iter/1', 'mul/0', 'sub2/0', 'fwdkin/5', 'sphik/1', 'rr/1', 'slerp/0', 'urik/1', 'tomsg/0', 'sub3/0', 'R2q/0', 'fwdkin/4', 'urdf/0', 'rrtool/0', 'sphik/4'] + \
      ['fwdkin/0', 'fwdkin/2', 'rot/0', 'rot/1', 'q2R/0', 'R2rpy/0', 'rpy2R/0', 'inv/0', 'unapply/0', 'unapply/1', 'jac/0', 'jac/2', 'sub0/0', 'sub1/0', 'sub4/0', 'sub4/1', 'equiv/0', 'equiv/2', 'iter/0', 'iter/3',
       'sphik/0', 'sphik/3', 'sphik/5', 'urik/0', 'urik/3', 'urik/4', 'q2rot/0', 'quatproduct/0', 'hat/0', 'Transform/0', 'mul/1', 'str/0', 'msg2transform/0', 'six/0', 'rr/0', 'R2rot/0', 'R2rot/2', 'slerp/1']
MODES = ['results', 'args', 'morph', 'gone']


KINDS = dict(pair=k_pair, hist=k_hist, triple=k_triple, layout=k_layout, env=k_env, close=k_close, random=k_random)


def shards(tier):
    for n in NAMES:
        alone(n)
        m = tuple(sorted(k for k in reach(OPS[n][1]) if k.startswith('robot:')))
        if m:
            alone(n, m)
    note('calls in the catalogue', len(NAMES))
    return [[tier, i] for i in range(64)]


def space(tier):
    for n in NAMES:
        yield 'pair', dict(i=n, part=0, parts=1, modes=MODES)
        yield 'env', dict(op=n)
        yield 'close', dict(op=n)
        for how in ('F', 'stride', 'readonly', 'int'):
            yield 'layout', dict(op=n, how=how)
    for t in TRI[:14]:
        yield 'triple', dict(i=t, n=14, mode='results')
    if tier != 'quick':
        for t in TRI:
            for m in ('results', 'morph'):
                yield 'triple', dict(i=t, n=len(TRI), mode=m)
    for f in ('random_R', 'random_p', 'random_transform'):
        yield 'random', dict(f=f, between=['fwdkin/0', 'R2rot/0', 'sphik/0', 'iter/1', 'mul/0', 'urdf/0'])


def cases(sh):
    tier, i = sh
    for m, (k, p) in enumerate(space(tier)):
        if m % 64 == i:
            yield k, p
