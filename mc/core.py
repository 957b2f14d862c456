"""Exhaustive bounded exploration engine.

A property module (mc/props/cNN.py) defines

    ID        property id
    BOUNDS    {tier: text} the bounds that the enumeration covers completely
    ASSUME    list of assumptions / domain exclusions
    shards(tier)   -> list of JSON-able shard descriptors (a partition of the space)
    cases(shard)   -> generator of (kind, params); params is JSON-able
    KINDS     {kind: function(params)}; a function runs the real code on one
              case, compares it with the reference model and raises Bad (or any
              other exception) if they disagree

The engine runs every case of every shard over forked workers, counts distinct
cases (states) and calls of the real code checked against the reference
(transitions), and writes the evidence, replay files and verdict lines.
"""
import collections, hashlib, importlib, json, mmap, os, pickle, signal, sys, time, traceback, warnings
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
MAX_BAD = 3
CASE_TIMEOUT = float(os.environ.get('VERIF_CASE_TIMEOUT', '60'))


class Bad(Exception):
    """The property does not hold. kind/params: a more specific case to replay;
    key: identifies a known finding class."""
    def __init__(self, msg, kind=None, params=None, key=None):
        Exception.__init__(self, msg)
        self.msg, self.kind, self.params, self.key = msg, kind, params, key


class CaseTimeout(Exception):
    pass


class Counter(object):
    transitions = 0     # real calls checked against the reference
    validated = 0       # complete model histories replayed on the real code
    states = None       # set of hashes of additional states
    extra = collections.Counter()
    findings = {}

    def reset(self):
        self.transitions = 0
        self.validated = 0
        self.states = set()
        self.extra = collections.Counter()
        self.findings = {}


C = Counter()
C.reset()


def tick(n=1):
    C.transitions += n


def note(name, n=1):
    """Count an observed outcome class (shown in the evidence)."""
    C.extra[name] += n


def state(obj):
    """Record a distinct state reached inside a case."""
    C.states.add(h64(obj))


def h64(obj):
    s = obj if isinstance(obj, (bytes,)) else repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), 'big')


def need(cond, msg, *args):
    if not cond:
        raise Bad(msg % args if args else msg)


def finding(key, msg):
    """A genuine, recorded defect showed up; a violation unless it is listed."""
    C.findings.setdefault(key, msg)


def load_findings(pid):
    keys = {}
    fn = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(fn):
        for line in open(fn):
            if line.startswith('finding:'):
                d = dict(x.split('=', 1) for x in line[8:].split()[:2])
                if d.get('property') == pid:
                    keys[d['key']] = line.split(None, 3)[3].strip() if len(line.split(None, 3)) > 3 else ''
    return keys


def assert_under_repo():
    import general_robotics_toolbox as g
    src = os.path.realpath(os.path.join(REPO, 'src'))
    fn = os.path.realpath(g.__file__)
    if not fn.startswith(src + os.sep):
        print('ERROR: code under test loaded from %s, not %s' % (fn, src))
        sys.exit(3)


def _alarm(sig, frm):
    raise CaseTimeout('case did not finish within %g s' % CASE_TIMEOUT)


def run_case(mod, kind, params):
    """None if the case holds, else (message, kind, params, key)."""
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        if kind == 'shard':
            _shard(mod, params)
            if 'error' in params and os.environ.get('VERIF_REPLAY') is None:
                raise Bad('enumeration failed: %s %s' % (params['error'], params['at']))
        else:
            mod.KINDS[kind](params)
        return None
    except Bad as e:
        return (e.msg, e.kind or kind, e.params if e.kind else params, e.key)
    except CaseTimeout as e:
        return (str(e), kind, params, None)
    except MemoryError:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, SystemExit):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else '?'
        return ('raised %s: %s at %s' % (type(e).__name__, str(e)[:300], where), kind, params, None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _cases(mod, sh):
    """Cases of a shard; a failure while they are made is itself a (failing) case."""
    try:
        for x in mod.cases(sh):
            yield x
    except Exception as e:
        if isinstance(e, (MemoryError,)):
            raise
        yield 'shard', dict(shard=sh, error='%s: %s' % (type(e).__name__, str(e)[:500]), at=traceback.format_exc()[-600:])


def _shard(mod, p):
    for _ in mod.cases(p['shard']):
        pass


def _worker(mod, shards, counter, lock, slot, outfn, deadline, badflag):
    # a filter no library would install itself, so that a changed filter list is noticed
    warnings.filterwarnings('ignore', message='(?s).*')
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    C.reset()
    st, ncases, bads, samples, done, capped = set(), 0, [], [], 0, False
    kinds = collections.Counter()
    while True:
        with lock:
            i = counter.value
            if i >= len(shards) or badflag.value >= MAX_BAD:
                break
            counter.value += 1
        sh = shards[i]
        for kind, params in _cases(mod, sh):
            js = json.dumps([kind, params])
            b = js.encode()
            if len(b) < len(slot) - 8:
                slot[0:8] = len(b).to_bytes(8, 'big')
                slot[8:8 + len(b)] = b
            r = run_case(mod, kind, params)
            ncases += 1
            kinds[kind] += 1
            st.add(h64(b))
            if len(samples) < 2 or (ncases & (ncases - 1)) == 0:
                samples.append([kind, params])
                if len(samples) > 6:
                    samples.pop(2)
            if r is not None:
                bads.append(r)
                badflag.value += 1
                if badflag.value >= MAX_BAD:
                    break
            if (ncases & 31) == 0:
                if time.time() > deadline:
                    capped = True
                    break
                if badflag.value >= MAX_BAD:
                    break
        else:
            done += 1
        if capped:
            break
    st |= C.states
    slot[0:8] = (0).to_bytes(8, 'big')
    with open(outfn, 'wb') as f:
        pickle.dump(dict(states=st, cases=ncases, bads=bads, samples=samples, done=done, capped=capped, kinds=kinds,
                         transitions=C.transitions, validated=C.validated, extra=C.extra, findings=C.findings), f)


def explore(mod, tier):
    import multiprocessing as mp
    t0 = time.time()
    shards = list(mod.shards(tier))
    budget = float(os.environ.get('VERIF_BUDGET', '700' if tier == 'quick' else '14000'))
    deadline = t0 + budget
    n = max(1, min(len(os.sched_getaffinity(0)), 8, len(shards)))
    counter, badflag, lock = mp.Value('l', 0, lock=False), mp.Value('l', 0, lock=False), mp.Lock()
    tmp = tempfile.mkdtemp(prefix='mc')
    procs = []
    sys.stdout.flush()
    for w in range(n):
        slot = mmap.mmap(-1, 1 << 18)
        out = os.path.join(tmp, '%d' % w)
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                _worker(mod, shards, counter, lock, slot, out, deadline, badflag)
                rc = 0
            except BaseException:
                traceback.print_exc()
                rc = 70
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        procs.append((pid, slot, out))
    res = dict(states=set(), cases=0, bads=[], samples=[], done=0, capped=False, kinds=collections.Counter(),
               transitions=0, validated=0, extra=collections.Counter(), findings={}, errors=[], shards=len(shards))
    for pid, slot, out in procs:
        _, status = os.waitpid(pid, 0)
        if os.path.exists(out) and status == 0:
            with open(out, 'rb') as f:
                r = pickle.load(f)
            res['states'] |= r['states']
            for k in ('cases', 'bads', 'done', 'transitions', 'validated', 'kinds', 'extra'):
                res[k] += r[k]
            res['samples'] += r['samples'][-3:]
            res['capped'] |= r['capped']
            res['findings'].update(r['findings'])
        elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
            ln = int.from_bytes(slot[0:8], 'big')
            if ln:
                kind, params = json.loads(slot[8:8 + ln].decode())
                res['bads'].append(('the process was ended by signal %d' % os.WTERMSIG(status), kind, params, None))
            else:
                res['errors'].append('worker ended by signal %d outside a case' % os.WTERMSIG(status))
        else:
            res['errors'].append('worker failed with status %d' % status)
        try:
            os.unlink(out)
        except OSError:
            pass
    os.rmdir(tmp)
    res['wall'] = time.time() - t0
    return res


def write_replay(pid, kind, params, msg):
    d = os.path.join(os.environ.get('VERIF_REPLAYS', os.path.join(VERIF, 'replays')), pid)
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, '%016x.json' % h64([kind, params]))
    with open(fn, 'w') as f:
        json.dump(dict(property=pid, kind=kind, params=params, message=msg,
                       how='/verif/check %s replay %s' % (pid, fn)), f, indent=1)
    return fn


def main(argv):
    # a filter no library would install itself, so that a changed filter list is noticed
    warnings.filterwarnings('ignore', message='(?s).*')
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else 'quick')
    mod = importlib.import_module('mc.props.' + pid.lower())
    assert_under_repo()
    import numpy as np
    np.seterr(all='ignore')
    if tier == 'replay':
        d = json.load(open(argv[2]))
        os.environ['VERIF_REPLAY'] = '1'
        signal.signal(signal.SIGALRM, _alarm)
        r = run_case(mod, d['kind'], d['params'])
        if r is None:
            print('holds: %s %s' % (d['kind'], json.dumps(d['params'])))
            return 0
        print('broken: %s' % r[0])
        print('VIOLATION property=%s replay=%s' % (pid, argv[2]))
        return 1
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    res = explore(mod, tier)
    listed = load_findings(pid)
    bads = list(res['bads'])
    printed = []
    for key, msg in sorted(res['findings'].items()):
        if key in listed:
            printed.append('KNOWN-FINDING: property=%s %s: %s' % (pid, key, listed[key] or msg))
        else:
            bads.append(('unlisted finding %s: %s' % (key, msg), 'finding', key, None))
    exhaustive = not res['capped'] and res['done'] == res['shards'] and not res['errors']
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=len(res['states']), transitions=res['transitions'],
                            traces_validated_against_impl=res['validated'] or res['cases'],
                            samples=[dict(kind=k, params=p) for k, p in res['samples'][:8]],
                            exhaustive=bool(exhaustive),
                            explanation='Every case of the bounded space was executed on the code in /repo and compared with the '
                                        'reference model. states = distinct cases/states, transitions = calls of the real code whose '
                                        'result was compared, traces_validated_against_impl = complete cases or histories executed. '
                                        'Bounds: ' + mod.BOUNDS.get(tier, mod.BOUNDS['quick']),
                            cases_by_kind=dict(res['kinds']), outcomes=dict(res['extra']),
                            shards='%d of %d' % (res['done'], res['shards'])),
              assumptions=list(getattr(mod, 'ASSUME', [])), wall_s=round(res['wall'], 2), violations=len(bads))
    for s in ev['coverage']['samples']:
        if len(json.dumps(s)) > 3000:
            s['params'] = json.dumps(s['params'])[:3000]
    os.makedirs(EVID, exist_ok=True)
    fn = os.path.join(EVID, pid + '.json')
    with open(fn + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(fn + '.tmp', fn)
    print('%s %s: states=%d transitions=%d cases=%s wall=%.1fs exhaustive=%s' % (
        pid, tier, len(res['states']), res['transitions'], dict(res['kinds']), res['wall'], exhaustive))
    for l in printed:
        print(l)
    for msg, kind, params, key in bads[:MAX_BAD]:
        rp = write_replay(pid, kind, params, msg)
        print('  %s: %s' % (kind, msg[:2000]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    if bads:
        return 1
    if res['errors']:
        print('ERROR: ' + '; '.join(res['errors']))
        return 4
    return 0


