"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C22': 'stateless model checking of the real code: all line-level thread interleavings up to a preemption bound under a controlled scheduler',
 'C01': 'bounded exhaustive exploration of all walks of the conversion graph on the real code against a reference model',
 'C04': 'explicit-state search over all operation sequences on the real Transform objects against a homogeneous-matrix reference model',
 'C11': 'explicit-state search over all joint-step histories with fed-back last position on the real code against a brute-force reference',
 'C25': 'explicit-state search over all module loading histories under every set of missing packages (controlled import environment) on the real code; differential oracle against each module loaded alone',
 'C27': 'explicit-state search over all words of description changes (generators of a symmetry group) on the real code; differential oracle: the answers for the original description carried over by the word',
 'C28': 'exhaustive exploration of all pairs of process settings and all interpreter starts (controlled process environment) around the real code; differential oracle against a default process',
 'C26': 'bounded exhaustive enumeration of all assignments of array representations to all calls on the real code; differential oracle against plain arrays',
 'C20': 'explicit-state search over all receive/lookup histories with a controlled listener environment against a transform-tree reference model',
 'C21': 'explicit-state search over all call histories (with caller-side mutation events) on the real code; differential oracle against a fresh process state',
}
DEF = 'bounded exhaustive enumeration (model checking by explicit enumeration of a finite input/configuration space on the real code) against a reference model'
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    fn = os.path.join(V, 'mc', 'props', p['id'].lower() + '.py')
    if not os.path.exists(fn):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    src = open(fn).read()
    ns = {'PI': 3.14159}
    m = re.search(r"^BOUNDS = (\{.*?\})\n", src, re.S | re.M)
    b = eval(m.group(1))
    m = re.search(r"^ASSUME = (\[.*?\])\n", src, re.S | re.M)
    a = eval(m.group(1))
    checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                       technique=TECH.get(p['id'], DEF), level='model_checking',
                       level_note='Every case within the stated bounds is executed on the code in /repo and compared with an independent reference model; nothing is sampled. '
                                  'Quick bounds: ' + b['quick'] + '. Thorough: ' + b['thorough'] + '. Trusted: the reference model in mc/ref.py and the check module, numpy, '
                                  'IEEE arithmetic within the stated tolerances. Values between the enumerated ones are not covered. ' +
                                  ('Assumptions: ' + '; '.join(a) if a else '')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: all checks import the unmodified code from /repo/src. ./check C01 replay FILE re-executes one failing case.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
