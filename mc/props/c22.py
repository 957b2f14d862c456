"""Concurrent calls: two real threads on shared objects, every interleaving up to a preemption bound under a tracing scheduler, compared with the calls alone."""
import os, sys, threading
import numpy as np
import general_robotics_toolbox as rox
from mc import catalog as cat, core
from mc.core import need, tick, note, state, Bad
from mc.props import c21

ID = 'C22'
BOUNDS = {'quick': '87 calls of 34 functions on shared robots, poses and arrays; two threads, source-line granularity inside the library. One preemption, at every line event (calls of more than 120 events: at the first, '
                   'second and last event of every source line), the other call running to its end in a second thread: every call against every variant of the same function, against calls on the same robot and '
                   'against one call of each other function (calls of at most 200 events); the same from a pristine process for each first event of a line; two preemptions (every pair of positions) for calls of at most '
                   '40 events of the same function; one preemption at every bytecode for calls of at most 60 events (calls of more than 500 events: one variant of the same function, and shorter calls on the same robot)',
          'thorough': 'one preemption of every call against every other call; two preemptions for calls of at most 120 events of the same function and of at most 30 events of different functions; three threads (one '
                      'nested preemption each) for calls of at most 25 events; every bytecode for calls of at most 240 events'}
ASSUME = ['threads switch at library source lines or bytecodes (numpy calls and numpy Python code are atomic)', 'a thread blocked by the other one is resumed after a short wait, whatever it was waiting for']
SRC = os.path.realpath(os.path.join(core.REPO, 'src')) + os.sep
STUCK = 30.0
_files = {}


def lib(fn):
    r = _files.get(fn)
    if r is None:
        r = _files[fn] = os.path.realpath(fn).startswith(SRC)
    return r


class Tracer(object):
    """Counts the events of this thread inside the library and calls hook at chosen ones."""

    def __init__(self, stop, hook, opcodes=False, log=None):
        self.n, self.stop, self.hook, self.op, self.log = 0, stop, hook, opcodes, log

    def glob(self, f, ev, arg):
        if not lib(f.f_code.co_filename):
            return None
        if self.op:
            f.f_trace_opcodes = True
        return self.loc

    def loc(self, f, ev, arg):
        if ev == ('opcode' if self.op else 'line'):
            k = self.n
            self.n += 1
            if self.log is not None:
                self.log.append((f.f_code.co_name, f.f_code.co_firstlineno, f.f_lasti if self.op else f.f_lineno))
            if k == self.stop:
                self.hook()
                if self.log is None:
                    sys.settrace(None)
        return self.loc

    def run(self, fn):
        sys.settrace(self.glob)
        try:
            return fn()
        finally:
            sys.settrace(None)


class Side(object):
    """A second thread which runs one call at a time; it can be held at one of its events."""

    def __init__(self):
        self.go, self.back, self.job = threading.Semaphore(0), threading.Semaphore(0), None
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            self.go.acquire()
            j = self.job
            j['out'] = j['fn']()
            j['done'] = True
            self.back.release()

    def start(self, fn):
        self.job = dict(fn=fn, done=False)
        self.go.release()
        return self.job

    def wait(self, t):
        return self.back.acquire(timeout=t)


_side = {}


def side(i=0):
    k = (os.getpid(), i)
    if k not in _side:
        _side[k] = Side()
    return _side[k]


_slow = [0]


def patience():
    return 1.0 if _slow[0] < 3 else 0.05


def quiet(f, args):
    with np.errstate(all='ignore'):
        return cat.run(f, args)[0]


def interleave(A, B, i, j=None, opcodes=False, third=None):
    """A is preempted at its event i, B runs (until its event j, when A goes on to its end first). Returns both outcomes."""
    s = side()
    st = dict(job=None, paused=False)
    resume = threading.Semaphore(0)

    def b():
        if third is not None:
            def inner():
                s2 = side(1)
                st['job3'] = s2.start(third)
                if not s2.wait(patience()):
                    _slow[0] += 1
                    st['late3'] = True
            return Tracer(j, inner).run(B)
        if j is None:
            return B()

        def hold():
            st['paused'] = True
            s.back.release()
            if not resume.acquire(timeout=patience() * 2):
                _slow[0] += 1
        return Tracer(j, hold, opcodes).run(B)

    def at():
        st['job'] = s.start(b)
        if not s.wait(patience()):
            _slow[0] += 1
            st['late'] = True
    a = Tracer(i, at, opcodes).run(A)
    if st['job'] is None:
        at()
    resume.release()
    job = st['job']
    # tokens of s.back: one for a pause, one for the end
    if st.get('late') or st['paused']:
        t = 0
        while not job['done']:
            need(s.wait(.05) or t < STUCK * 20, 'the two calls block each other')
            t += 1
    while s.back.acquire(blocking=False):
        pass
    r3 = None
    if third is not None:
        if 'job3' not in st:
            st['job3'] = side(1).start(third)
            st['late3'] = True
        t = 0
        while not st['job3']['done']:
            need(side(1).wait(.05) or t < STUCK * 20, 'the three calls block each other')
            t += 1
        while side(1).back.acquire(blocking=False):
            pass
        r3 = st['job3']['out']
    return a, job['out'], r3


OPS = cat.ops(False)
NAMES = sorted(OPS)
_pool = {}


def thunk(n):
    f, keys = OPS[n]
    for k in keys:
        if k not in _pool:
            o = cat.pool(k)
            _pool[k] = (o, cat.snap(o))
    args = [_pool[k][0] for k in keys]
    return lambda: quiet(f, args)


def check(names, outs, what):
    for n, r, who in zip(names, outs, ('the preempted call', 'the other call', 'the third call')):
        w = c21.alone(n)
        if not cat.same(r, w):
            raise Bad('%s: %s %s gives\n%s\nalone it gives\n%s' % (what, who, n, str(r)[:600], str(w)[:600]))
    for k in {k for n in names for k in OPS[n][1]}:
        o, s = _pool[k]
        if cat.snap(o) != s:
            raise Bad('%s: the shared %s was changed' % (what, k))


def one(p):
    a, b, i = p['a'], p['b'], p['i']
    s = cat.light()
    r = interleave(thunk(a), thunk(b), i, p.get('j'), p.get('op', False), thunk(p['c']) if p.get('c') else None)
    names = [a, b] + ([p['c']] if p.get('c') else [])
    what = 'thread 1 runs %s to event %d, thread 2 runs %s%s%s' % (a, i, b, '' if p.get('j') is None else ' to event %d' % p['j'], ', then thread 3 %s' % p['c'] if p.get('c') else '')
    check(names, r, what)
    need(cat.light() == s, '%s: process settings changed', what)
    tick(len(names))


def profile(n, opcodes=False):
    log = []
    Tracer(-1, None, opcodes, log).run(thunk(n))
    return log


def points(log, full):
    """Preemption points: all events, or first, second and last event of each source line."""
    if len(log) <= full:
        return list(range(len(log)))
    occ = {}
    for i, e in enumerate(log):
        occ.setdefault(e, []).append(i)
    return sorted({i for v in occ.values() for i in (v[0], v[-1] if len(log) > 600 and full < 400 else v[min(1, len(v) - 1)], v[-1])})


_len = {}


def length(n):
    if n not in _len:
        _len[n] = len(profile(n))
    return _len[n]


def k_sched(p):
    if p.get('cold'):
        c21.child(lambda: one(p))
    else:
        one(p)
    state(['s', p])


def go(p):
    try:
        k_sched(p)
    except Bad as e:
        _pool.clear()
        raise Bad(e.msg, 'sched', p)


def k_one(p):
    log = profile(p['a'], p.get('op', False))
    pts = points(log, p['full'])
    for i in pts:
        go(dict(a=p['a'], b=p['b'], i=i, **({'op': True} if p.get('op') else {})))
    note('schedules with one preemption' + (' at a bytecode' if p.get('op') else ''), len(pts))


def k_cold(p):
    log = c21.child(lambda: profile(p['a']))
    pts = points(log, 30)
    if len(log) > 30:
        seen, q = set(), []
        for i in pts:
            if log[i] not in seen:
                seen.add(log[i])
                q.append(i)
        pts = q
    for i in pts:
        go(dict(a=p['a'], b=p['b'], i=i, cold=1))
    note('schedules from a pristine process', len(pts))


def k_two(p):
    la, lb = length(p['a']), length(p['b'])
    for i in range(la):
        for j in range(lb):
            go(dict(a=p['a'], b=p['b'], i=i, j=j))
    note('schedules with two preemptions', la * lb)


def k_three(p):
    for i in range(length(p['a'])):
        for j in range(length(p['b'])):
            go(dict(a=p['a'], b=p['b'], c=p['c'], i=i, j=j))
    note('schedules of three threads', length(p['a']) * length(p['b']))


KINDS = dict(sched=k_sched, one=k_one, cold=k_cold, two=k_two, three=k_three)


def fam(n):
    return n.split('/')[0]


def partners(a, tier):
    if tier != 'quick':
        return NAMES
    rb = {k for k in OPS[a][1] if k.startswith('robot:')}
    small = LEN[a] <= 200
    if LEN[a] > 500:
        f = {}
        for b in NAMES:
            if rb & set(OPS[b][1]) and fam(b) != fam(a) and LEN[b] <= 250:
                f.setdefault(fam(b), b)
        return sorted({VAR[a]} | set(f.values() if fam(a) != 'iter' or LEN[a] < 1800 else []))
    out, seen = [], set()
    for b in NAMES:
        if fam(a) == fam(b) and (small or fam(a) == 'equiv' or b == a or b == VAR[a]):
            out.append(b)
        elif fam(a) != fam(b) and rb & set(OPS[b][1]) and (small or LEN[b] < 2000) and (fam(b), 'r') not in seen:
            seen.add((fam(b), 'r'))
            out.append(b)
        elif small and fam(b) not in seen and fam(b) != fam(a) and (LEN[b] <= 120 or LEN[a] <= 20):
            seen.add(fam(b))
            out.append(b)
    return out


LEN, VAR = {}, {}


def shards(tier):
    for n in NAMES:
        c21.alone(n)
        try:
            LEN[n] = c21.child(lambda: len(profile(n)))
        except Bad:
            LEN[n] = 1
    for n in NAMES:
        v = [m for m in NAMES if fam(m) == fam(n)]
        VAR[n] = v[(v.index(n) + 1) % len(v)]
    return [[tier, i] for i in range(128)]


def space(tier):
    lim2, limop = (40, 60) if tier == 'quick' else (120, 240)
    for a in sorted(NAMES, key=lambda n: -LEN[n]):
        for b in partners(a, tier):
            yield 'one', dict(a=a, b=b, full=120 if tier == 'quick' else 400)
        for b in sorted({a, VAR[a]} if LEN[a] <= 500 or tier != 'quick' else {a} if a in ('sphik/0', 'sphik/2', 'urik/2', 'iter/3') else set()):
            yield 'cold', dict(a=a, b=b)
        for b in NAMES:
            f = fam(a) == fam(b)
            if f and max(LEN[a], LEN[b]) <= lim2 or not f and tier != 'quick' and max(LEN[a], LEN[b]) <= 30:
                yield 'two', dict(a=a, b=b)
            if f and LEN[a] <= limop:
                yield 'one', dict(a=a, b=b, op=True, full=4000)
            if tier != 'quick' and f and max(LEN[a], LEN[b]) <= 25:
                for c in sorted({a, VAR[a]}):
                    yield 'three', dict(a=a, b=b, c=c)


def cases(sh):
    tier, i = sh
    for m, (k, p) in enumerate(space(tier)):
        if m % 128 == i:
            yield k, p
