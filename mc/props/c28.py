"""Process settings: every single setting and every pair of settings, each in a fresh process, around all calls of the catalogue and degenerate calls."""
import itertools, json, os, shutil, subprocess, sys, tempfile
from mc import catalog as C
from mc.core import need, tick, state, REPO, VERIF

ID = 'C28'
BOUNDS = {'quick': 'all pairs of values of 15 kinds of in-process settings (26 values: numpy error modes, warnings as errors, print options, random state, garbage collection, tracing, working directory, closed standard streams, decimal and locale, '
                   'thread switching, arguments, environment, module path, numpy buffer, other thread or event loop) and all 24 combinations of hash seed, text encoding and interpreter flags, around about 300 calls (catalogue, loaders, messages, '
                   'singular and otherwise degenerate arguments)',
          'thorough': 'every pair under 4 interpreter starts, all triples that include an error mode or warnings as errors'}
ASSUME = ['assertions are enabled (no -O)', 'deprecation warnings of numpy and warnings which the library itself issues (no solution, vector lengths) are not turned into errors', 'underflow is not an error', 'results agree within 1e-9']
SET = [('err', ['ignore', 'raise', 'call']), ('warn', ['error', 'always', 'ignore']), ('print', ['new', 'old']), ('rnd', [0, 12345]), ('gc', ['off', 'often']), ('trace', ['profile', 'trace']), ('cwd', ['empty', 'gone']),
       ('std', [None]), ('dec', [2]), ('switch', [1e-6, 1.]), ('argv', [0, 1]), ('env', [0]), ('path', [0]), ('buf', [16]), ('where', ['thread', 'async'])]
STARTS = [dict(hash=h, enc=e, flags=f) for h in ('0', '1', '99') for e in ('utf8', 'ascii') for f in ('', '-bb', '-X dev', '-X utf8=0 -E -s')][:24]
URDF2 = u"""<!-- Gr\u00f6\u00dfe \u95a2\u7bc0 --><robot name="r\u00e9"><link name="w\u00fc"/><link name="a"/><link name="\u95a2"/>
<joint name="j\u00e91" type="revolute"><parent link="w\u00fc"/><child link="a"/><origin xyz=".1 0 .3" rpy=".4 0 -1"/><axis xyz="0 0 1"/><limit lower="-1" upper="2" effort="1" velocity="1"/></joint>
<joint name="\u95a2\u7bc0" type="revolute"><parent link="a"/><child link="\u95a2"/><origin xyz="0 .2 .3" rpy="0 1 0"/><axis xyz="0 1 0"/><limit lower="-1" upper="2" effort="1" velocity="1"/></joint></robot>"""

LATIN = URDF2.replace(u'\u95a2', u'\xe4').replace(u'\u7bc0', u'\xdf')


def run(start, combos):
    d = tempfile.mkdtemp(prefix='c28_')
    try:
        os.chmod(d, 0o755)
        with open(d + '/plain.urdf', 'w') as f:
            f.write(C.URDF)
        for fn, enc, text in (('utf8', 'utf-8', URDF2), ('bom', 'utf-8-sig', URDF2), ('utf16', 'utf-16', URDF2), ('latin', 'iso-8859-1', LATIN)):
            with open('%s/%s.urdf' % (d, fn), 'w', encoding=enc) as f:
                f.write('<?xml version="1.0" encoding="%s"?>\n%s' % (enc.replace('-sig', ''), text))
            with open('%s/%s.txt' % (d, fn), 'w', encoding='utf-8') as f:
                f.write(text)
        import yaml
        with open(d + '/r.yml', 'w', encoding='utf-8') as f:
            yaml.safe_dump(C.YAML['robot'], f)
        env = dict(PATH=os.environ.get('PATH', '/usr/bin:/bin'), PYTHONHASHSEED=start['hash'], PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', HOME=d)
        env.update(dict(LC_ALL='C', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0') if start['enc'] == 'ascii' else dict(LC_ALL='C.UTF-8'))
        r = subprocess.run([sys.executable, '-B'] + start['flags'].split() + [os.path.join(VERIF, 'mc', 'envworker.py'), REPO, d], input=json.dumps(combos), env=env, capture_output=True, text=True, encoding='utf-8', errors='replace', timeout=55)
        need(r.returncode == 0 and not r.stdout, 'started with %s: %s %s', start, r.stdout[-500:], r.stderr[-1500:])
        with open(d + '/out', encoding='utf-8') as f:
            rows = [json.loads(l) for l in f.read().split('\n')]
        return rows[:-1], rows[-1]
    finally:
        shutil.rmtree(d, ignore_errors=True)


_base = []


def k_run(p):
    if not _base:
        rows, names = run(dict(hash='0', enc='utf8', flags=''), [[]])
        base = dict(zip(names, rows[0][0]))
        for n in names:
            if n.startswith('urdf file with'):
                need(base[n][0] == 'value' and base[n] == base[n.replace('file', 'text')], '%s gives %s, expected %s', n, base[n], base[n.replace('file', 'text')])
        _base.append((rows[0][0], names))
    want, names = _base[0]
    rows, names2 = run(p['start'], p['combos'])
    need(names2 == names and len(rows) == len(p['combos']), 'calls %s', names2)
    for combo, (got, text) in zip(p['combos'], rows):
        what = 'process started with %s, settings %s' % (p['start'], combo)
        need(not text, '%s: text written: %s', what, text)
        need(len(got) == len(want), '%s: %d calls ended', what, len(got))
        for n, g, w in zip(names, got, want):
            need(C.same(g, w, 1e-9), '%s: %s gives %s, expected %s', what, n, str(g)[:300], str(w)[:300])
        tick(len(names))
        state((p['start'], combo))


KINDS = dict(run=k_run)


def combos(tier):
    vals = [(k, v) for k, vs in SET for v in vs]
    one = [[list(x)] for x in vals]
    two = [[list(a), list(b)] for a, b in itertools.combinations(vals, 2) if a[0] != b[0]]
    three = []
    if tier != 'quick':
        three = [[list(a), list(b), list(c)] for a, b, c in itertools.combinations(vals, 3) if len({a[0], b[0], c[0]}) == 3 and (a in (('err', 'raise'), ('warn', 'error')))]
    return one, two, three


def shards(tier):
    return [['start', tier, i] for i in range(len(STARTS))] + [['set', tier, i] for i in range(64)]


def cases(sh):
    what, tier, i = sh
    one, two, three = combos(tier)
    if what == 'start':
        yield 'run', dict(start=STARTS[i], combos=[[]] + (one if tier != 'quick' else []))
        return
    for s in ([STARTS[0]] if tier == 'quick' else [STARTS[0], STARTS[5], STARTS[10], STARTS[-1]]):
        mine = (one + two + (three if s is STARTS[0] else []))[i::64]
        for n in range(0, len(mine), 4):
            yield 'run', dict(start=s, combos=mine[n:n + 4])
