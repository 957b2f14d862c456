"""Robot information loading over generated descriptions: all spellings, chain/joint numberings, optional sections, malformations."""
import copy, io, itertools, json, math, os, tempfile
import numpy as np
import yaml
import general_robotics_toolbox as rox
from general_robotics_toolbox import robotraconteur as rr
from mc import ref, robots
from mc.core import need, tick, note, Bad, h64

ID = 'C15'
PI = math.pi
BOUNDS = {'quick': '1-3 chains of 1-7 joints over up to 8 joint_info entries; every strictly increasing joint_numbers subset of up to 6 entries; every combination (17280) of the allowed spellings of the nine '
                   'optional or variable fields (joint identifier 5, link identifiers 6, flange identifier 4, flange pose spelling 2, current tool 8, tool pose spelling 2, device info 5, base pose '
                   'spelling 2, as dictionaries, every 17th also as text/stream/file); all revolute/prismatic mixes for up to 4 joints; tool files: 3 device forms x 2 spellings x 4 sources on robots with and without '
                   'a current tool; 60 malformations on each of 3 descriptions; descriptions carry further fields of the format (reduced limits, units, inertias, unrelated poses) that must not matter; rotations, positions and limits from .03 down to 3e-8, whole numbers beside fractions',
          'thorough': 'every combination also from text, stream or file; malformations on 10 descriptions'}
ASSUME = ['rotations are given as unit quaternions', 'refused means any exception']
QS = [(1., 0., 0., 0.), tuple(ref.aa2q(ref.unit((1, 2, 3)), .8)), tuple(ref.aa2q(ref.unit((0, 1, 0)), PI / 2)), tuple(ref.aa2q(ref.unit((-1, .2, .5)), 2.9)), tuple(-np.array(ref.aa2q(ref.unit((1, 1, -1)), 1.3)))]
PS = [(0., 0., 0.), (.3, -.2, .55), (1.25, 2.5, -3.75), (.001, -.04, .9), (0, 1, 2)]
EPS = (.03, 2e-3, 3e-4, 3e-5, 3e-6, 3e-7, 3e-8)
# small corrections: rotations by (pi +) .03 to 3e-8, both quaternion signs, positions of that size and with that many digits
QS += [tuple((-1) ** k * np.array(ref.aa2q(ref.unit((1 - k, 2, k - 3)), e + (PI if k % 3 == 2 else 0)))) for k, e in enumerate(EPS + EPS[:1])] + [(0, 0, 1, 0)]
PS += [(e, -2 * e, .7 * e) if k % 2 else (.3 + e, -2 * e, 1. - e) for k, e in enumerate(EPS)] + [(1234.5678901, -3e5 - .0123, 1e-9), (-0., 0., 1e-15), (12, -7, 3), (1, .5, -2), (.25, 0, .75)]
AX = [(0., 0., 1.), (0., 1., 0.), (1., 0., 0.), (0., -1., 0.), (-1., 0., 0.), (0., 0., -1.), (.6, 0., .8), (0, 0, 1)]
AX += [tuple(map(float, ref.unit((e, 1, -e) if k % 2 else (1, -e, 2 * e)))) for k, e in enumerate(EPS)]


def vec(v):
    return dict(x=v[0], y=v[1], z=v[2])


def pose(i, form):
    q, p = [x if isinstance(x, int) else float(x) for x in QS[i % len(QS)]], PS[(i * 2 + 1) % len(PS)]
    d = dict(zip('wxyz', q))
    if form:
        return dict(translation=vec(p), rotation=d)
    return dict(orientation=d, position=vec(p))


def poseH(i):
    return ref.hom(ref.q2m(np.array(QS[i % len(QS)])), PS[(i * 2 + 1) % len(PS)])


LIM = [lambda k: dict(lower=-1.5 - .1 * k, upper=(2 + k) if k % 2 else 2.25 + k, velocity=.5 + .25 * k, acceleration=4.5 - .3 * k),
       lambda k: dict(lower=-EPS[k % 7], upper=EPS[(k + 2) % 7], velocity=EPS[k % 7], acceleration=1e-9),
       lambda k: dict(lower=-2 * PI * (k + 1), upper=1e4 + k, velocity=1e6, acceleration=12345.678901234),
       lambda k: dict(lower=.5 + k, upper=1.5 + 2 * k, velocity=1, acceleration=0),
       lambda k: dict(lower=-3 - k, upper=-1 - k / 2., velocity=0., acceleration=1 + k),
       lambda k: dict(lower=-180., upper=180. + k, velocity=90 + EPS[k % 7], acceleration=500),
       lambda k: dict(lower=0., upper=0. if k % 2 else PI, velocity=3.15, acceleration=1. / 3),
       # whole numbers beside fractions
       lambda k: dict(lower=-1 if k % 3 == 0 else -1.7, upper=2 if k % 3 == 0 else 2.9, velocity=3 if k % 3 == 0 else .75, acceleration=5 if k % 3 == 0 else 2.5),
       lambda k: dict(lower=-1 if k % 3 else -1.7, upper=2 if k % 3 else 2.9, velocity=3 if k % 3 else .75, acceleration=5 if k % 3 else 2.5)]


# names which must not be interpreted, normalised or replaced
ODD = ['', 'gr\u00f6\u00dfe', 'a b ', '/j/1', 'J', 'j', 'null', '1', ' ', 'link0_0', 'tool0', '\u95a2\u7bc0']


# fields of the description format that say nothing about the robot that is loaded
EXTRA_LIM = dict(reduced_velocity=.01, reduced_acceleration=.02, deceleration=.03, soft_lower=-.01, soft_upper=.01, jerk=7.)


def describe(o):
    """o: options -> (description, expected)"""
    ninfo, numbers, ch = o['ninfo'], o['numbers'], o['chain']
    info = []
    for k in range(ninfo):
        ident = {'str': 'joint_%d' % (k * 7 % 10), 'dict': dict(name='jd_%d' % k), 'full': dict(name='jf_%d' % k, uuid='00-%d' % k), 'null': None,
                 'odd': [ODD[(k + o['rot']) % len(ODD)], dict(name=ODD[(k + o['rot']) % len(ODD)], uuid='00-%d' % k)][(k + ninfo + o['rot'] // 2) % 2],
                 'mixed': [dict(name='m_%d' % k), 'ms_%d' % k, None][k % 3]}[o['jid']]
        info.append(dict(joint_identifier=ident, joint_type=('revolute', 'prismatic')[o['types'][k % len(o['types'])]],
                         joint_limits=dict(LIM[o.get('lim', 0)](k), effort=100, **(EXTRA_LIM if (k + ninfo) % 3 else {})),
                         default_units='radian', passive=False, **({} if k % 2 else dict(default_effort_units='newton_meter', joint_bounds=dict(lower=-9., upper=9.), joint_position_units='degree'))))
    chains = []
    for c in range(o['nchains']):
        nums = numbers if c == ch else list(range(1 + (c + len(numbers)) % ninfo))
        n = len(nums)
        H = [AX[(k * 3 + c + o.get('rot', 0)) % len(AX)] for k in range(n)]
        P = [(.1 * k + c, -.2 + .05 * k * k, .3 - .07 * k) for k in range(n + 1)]
        d = dict(kin_chain_identifier='chain%d' % c, H=[vec(h) for h in H], P=[vec(p) for p in P], joint_numbers=list(nums), flange_pose=pose(o['rot'] + c + 1, o['fform']),
                 flange_identifier={'str': 'flange%d' % c, 'dict': dict(name='fl%d' % c), 'null': None, 'full': dict(name='ff%d' % c, uuid='u'), 'odd': [ODD[o['rot'] % len(ODD)], dict(name=ODD[o['rot'] % len(ODD)], uuid='9')][o['rot'] // 2 % 2]}[o['fid']])
        links = {'none': 0, 'empty': [], 'null': [None] * (n + 1), 'str': ['link%d_%d' % (c, k) for k in range(n + 1)], 'dict': [dict(name='ld%d_%d' % (c, k)) for k in range(n + 1)],
                 'odd': [dict(name=ODD[(o['rot'] + k) % len(ODD)], uuid='7') if (k + o['rot']) % 2 else ODD[(o['rot'] + k) % len(ODD)] for k in range(n + 1)],
                 'nullfirst': [None] + ['lx%d' % k for k in range(n)]}[o['links']]
        if links != 0:
            d['link_identifiers'] = links
        t = {'none': 0, 'null': None, 'notcp': dict(payload=1), 'nulltcp': dict(tcp=None), 'tcp': dict(tcp=pose(c + 2 + o['rot'], o['tform'])),
             'named': dict(tcp=pose(c + 2 + o['rot'], o['tform']), device_info=dict(device=dict(name='tool%d' % c))), 'strname': dict(tcp=pose(c + 3 + o['rot'], o['tform']), device_info=dict(device='stool%d' % c)),
             'nulldev': dict(tcp=pose(c + 4 + o['rot'], o['tform']), device_info=None)}[o['tool']]
        if t != 0:
            d['current_tool'] = t
        if c % 2:
            d.update(inertia=[dict(m=1.)], R_tool=None, tool_pose=pose(7, 0), base_pose=pose(6, 1), joint_types=['prismatic'] * n, max_tcp_speed=1.)
        chains.append(d)
        if c == ch:
            E = dict(H=np.array(H, dtype=float).T, P=np.array(P, dtype=float).T)
            E['root'] = {'str': 'link%d_0' % c, 'dict': 'ld%d_0' % c, 'odd': ODD[o['rot'] % len(ODD)]}.get(o['links'])
            E['tip'] = {'str': 'flange%d' % c, 'dict': 'fl%d' % c, 'full': 'ff%d' % c, 'null': None, 'odd': ODD[o['rot'] % len(ODD)]}[o['fid']]
            E['flange'] = poseH(o['rot'] + c + 1)
            E['tool'] = None
            if o['tool'] in ('tcp', 'named', 'strname', 'nulldev'):
                E['tool'] = poseH(c + {'tcp': 2, 'named': 2, 'strname': 3, 'nulldev': 4}[o['tool']] + o['rot'])
            if o['tool'] == 'named':
                E['tip'] = 'tool%d' % c
            if o['tool'] == 'strname':
                E['tip'] = 'stool%d' % c
            for a, b in (('joint_lower_limit', 'lower'), ('joint_upper_limit', 'upper'), ('joint_vel_limit', 'velocity'), ('joint_acc_limit', 'acceleration')):
                E[a] = [float(info[k]['joint_limits'][b]) for k in nums]
            E['type'] = [o['types'][k % len(o['types'])] for k in nums]
            nm = lambda x: '' if x is None else x if isinstance(x, str) else x['name']
            E['names'] = [nm(info[k]['joint_identifier']) for k in nums]
    y = dict(robot_type='serial', chains=chains, joint_info=info, **(dict(robot_uuid='u', tcp=pose(5, 0), base_pose=pose(4, 1), tool_info=dict(tcp=pose(3, 1))) if ninfo % 2 else {}))
    E['base'] = None
    if o['dev'] != 'none':
        y['device_info'] = dict(device=dict(name='robot'))
    if o['dev'] == 'nulldev':
        y['device_info'] = None
    if o['dev'] == 'nullpose':
        y['device_info']['device_origin_pose'] = None
    if o['dev'] == 'pose':
        y['device_info']['device_origin_pose'] = dict(pose=pose(o['rot'] + 3, o['bform']), parent_frame='world')
        E['base'] = poseH(o['rot'] + 3)
    return y, E


SRC = ('dict', 'text', 'stream', 'file')


class Source(object):
    def __init__(self, d, form, aliases=False):
        self.d, self.form, self.f = d, form, None
        self.before = copy.deepcopy(d)

    def __enter__(self):
        if self.form == 'dict':
            return self.d
        t = yaml.safe_dump(self.d, sort_keys=False) if self.form != 'stream' else json.dumps(self.d)
        if self.form == 'text':
            return t
        if self.form == 'stream':
            return io.StringIO(t)
        self.f = tempfile.TemporaryFile('w+')
        self.f.write(t)
        self.f.seek(0)
        return self.f

    def __exit__(self, *a):
        if self.f:
            self.f.close()

    def unchanged(self):
        return self.d == self.before


def check(r, E, what):
    need(isinstance(r, rox.Robot), '%s gave %r', what, r)
    n = len(E['type'])
    need(np.shape(r.H) == (3, n) and np.allclose(r.H, E['H'], 0, 1e-12), '%s: axes\n%s\nexpected\n%s', what, r.H, E['H'])
    need(np.shape(r.P) == (3, n + 1) and np.allclose(r.P, E['P'], 0, 1e-12), '%s: link vectors\n%s\nexpected\n%s', what, r.P, E['P'])
    need([int(x) for x in r.joint_type] == E['type'], '%s: joint types %s, expected %s', what, r.joint_type, E['type'])
    for k in ('joint_lower_limit', 'joint_upper_limit', 'joint_vel_limit', 'joint_acc_limit'):
        g = getattr(r, k)
        need(g is not None and np.shape(g) == (n,) and np.allclose(g, E[k], 0, 1e-12), '%s: %s %s, expected %s', what, k, g, E[k])
    need(list(r.joint_names) == E['names'], '%s: names %s, expected %s', what, r.joint_names, E['names'])
    need(r.root_link_name == E['root'], '%s: root link %r, expected %r', what, r.root_link_name, E['root'])
    need(r.tip_link_name == E['tip'], '%s: tip link %r, expected %r', what, r.tip_link_name, E['tip'])
    for nm, t in (('flange', r.T_flange), ('base', r.T_base), ('tool', None if r.R_tool is None else rox.Transform(r.R_tool, r.p_tool))):
        need((t is None) == (E[nm] is None), '%s: %s transform is %s, expected %s', what, nm, t, E[nm])
        if t is not None:
            need(np.max(np.abs(robots.toH(t) - E[nm])) < 1e-12, '%s: %s transform is\n%s\nexpected\n%s', what, nm, robots.toH(t), E[nm])
    need((r.R_tool is None) == (r.p_tool is None), '%s: half a tool', what)
    need(r.M is None, '%s: inertia %s', what, r.M)


def k_load(p):
    y, E = describe(p)
    for s in p['src']:
        src = Source(y, s)
        with src as f:
            r = rr.load_robot_info_yaml_to_robot(f, p['chain']) if p['chain'] or s == 'text' else rr.load_robot_info_yaml_to_robot(f)
        tick()
        check(r, E, 'robot info %s from %s' % (p, s))
        need(src.unchanged(), 'the description was modified: %s', p)
        # the robot does not share mutable state with a second robot from the same data
        if s == 'dict':
            r2 = rr.load_robot_info_yaml_to_robot(y, p['chain'])
            r.H[:] = 0
            r.joint_lower_limit[:] = -99
            r.T_flange.p[:] = 5
            check(r2, E, 'second load of %s' % p)
            check(rr.load_robot_info_yaml_to_robot(y, p['chain']), E, 'third load of %s' % p)
            need(src.unchanged(), 'the description changed with the robot: %s', p)
            tick(2)


def toolfile(t):
    d = dict(tcp=pose(t['i'], t['form']), device_info=dict(device={'str': 'gripper', 'dict': dict(name='gripper'), 'full': dict(name='gripper', uuid='1')}[t['dev']]), actuated=True)
    if t['i'] % 3 == 1:
        d['device_info'].update(device_origin_pose=dict(pose=pose(2, 0)), parent_device='other')
        d.update(inertia=dict(m=1., com=vec((0., 0., 1.))), close_position=.1, flange_pose=pose(3, 1), name='hand')
    return d, poseH(t['i'])


def k_tool(p):
    y, E = describe(p)
    for t in p['tools']:
        d, M = toolfile(t)
        for s1, s2 in zip(p['src'], t['src']):
            a, b = Source(y, s1), Source(d, s2)
            with a as fa, b as fb:
                r = rr.load_robot_and_tool_info_yaml_to_robot(fa, fb, p['chain']) if p['chain'] or s1 == 'text' else rr.load_robot_and_tool_info_yaml_to_robot(fa, fb)
            tick()
            check(r, dict(E, tool=M, tip='gripper'), 'robot info %s (%s) with tool %s (%s)' % (p, s1, t, s2))
            need(a.unchanged() and b.unchanged(), 'a description was modified: %s %s', p, t)


def _set(path, val):
    def f(y, ch):
        o = y
        for k in path[:-1]:
            o = o[ch if k == 'CH' else k]
        k = path[-1]
        if val is DEL:
            del o[k]
        else:
            o[k] = val(o[k]) if callable(val) else val
    return f


DEL = object()
MAL = {}
CP = ['chains', 'CH']
for nm, path, vals in [
        ('joint_numbers', CP + ['joint_numbers'], [lambda v: v[::-1] if len(v) > 1 else [9], lambda v: [v[0]] + v[:-1] if len(v) > 1 else [-1], lambda v: v[:-1] + [99], lambda v: [-1] + v[1:], lambda v: v[:-1],
                                                   lambda v: v + [v[-1] + 1], lambda v: [50 + k for k in range(len(v))], lambda v: v[:-1] + [-2], lambda v: v[:-1] + v[:1] if len(v) > 1 else [77], None, DEL]),
        ('H', CP + ['H'], [lambda v: v[:-1], lambda v: v + v[:1], lambda v: [], None, DEL, lambda v: [dict(x=0., y=0., z=0.)] + v[1:], lambda v: v[:-1] + [dict(x=0, y=0, z=2.)]]),
        ('Hx', CP + ['H', 0], [lambda v: dict(x=1., y=0.), None, 'z']),
        ('P', CP + ['P'], [lambda v: v[:-1], lambda v: v + v[:1], lambda v: [], None, DEL, lambda v: v[1:]]),
        ('Px', CP + ['P', 0], [lambda v: dict(y=1., z=0.), None]),
        ('flange_pose', CP + ['flange_pose'], [DEL, None, {}, lambda v: dict(position=dict(x=0, y=0, z=0))]),
        ('joint_info', ['joint_info'], [DEL, None, lambda v: v[:1] if len(v) > 4 else []]),
        ('chains', ['chains'], [DEL, None, []]),
        ]:
    for m, v in enumerate(vals):
        MAL['%s%d' % (nm, m)] = _set(path, v)


def _ji(key, val):
    """Damage in the joint_info entry of the last joint of the chain."""
    def f(y, ch):
        j = y['joint_info'][y['chains'][ch]['joint_numbers'][-1]]
        if val is DEL:
            del j[key]
        else:
            j[key] = val
    return f


for m, (k, v) in enumerate([('joint_type', x) for x in ('continuous', 'Revolute', '', None, 'fixed', 'planar', 0, 'screw', DEL)] +
                           [('joint_limits', x) for x in (None, DEL, {}, dict(lower=0, upper=1, velocity=1), dict(upper=1, velocity=1, acceleration=1), dict(lower=1, velocity=1, acceleration=1))]):
    MAL['%s%d' % (k, m)] = _ji(k, v)


def k_mal(p):
    y, E = describe(p)
    check(rr.load_robot_info_yaml_to_robot(y, p['chain']), E, 'undamaged %s' % p)
    y2 = copy.deepcopy(y)
    MAL[p['m']](y2, p['chain'])
    for s in ('dict', 'text'):
        for tool in (False, True):
            tick()
            try:
                with Source(y2, s) as f:
                    if tool:
                        rr.load_robot_and_tool_info_yaml_to_robot(f, toolfile(dict(i=1, form=0, dev='str'))[0], p['chain'])
                    else:
                        rr.load_robot_info_yaml_to_robot(f, p['chain'])
            except Exception:
                note('refused ' + p['m'])
                continue
            raise Bad('accepted a description damaged by %s (%s): %s' % (p['m'], s, p))


def k_index(p):
    y, E = describe(p)
    for c in (len(y['chains']), len(y['chains']) + 1, 50, -1, -2, -len(y['chains']), -50):
        tick()
        try:
            rr.load_robot_info_yaml_to_robot(y, c)
        except Exception:
            note('refused chain index')
            continue
        raise Bad('accepted chain index %d of %d chains' % (c, len(y['chains'])))
    for bad in (dict(device_info=dict(device='g')), dict(tcp=pose(1, 0)), dict(tcp=None, device_info=dict(device='g')), {}, dict(tcp=pose(1, 0), device_info=None), dict(tcp=pose(1, 0), device_info={})):
        tick()
        try:
            rr.load_robot_and_tool_info_yaml_to_robot(y, bad, p['chain'])
        except Exception:
            note('refused tool')
            continue
        raise Bad('accepted tool info %s' % bad)


KINDS = dict(load=k_load, tool=k_tool, mal=k_mal, index=k_index)
FIELDS = dict(jid=('str', 'dict', 'full', 'null', 'mixed', 'odd'), links=('none', 'empty', 'null', 'str', 'dict', 'nullfirst', 'odd'), fid=('str', 'dict', 'null', 'full', 'odd'), fform=(0, 1),
              tool=('none', 'null', 'notcp', 'nulltcp', 'tcp', 'named', 'strname', 'nulldev'), tform=(0, 1), dev=('none', 'plain', 'nulldev', 'nullpose', 'pose'), bform=(0, 1))
D0 = dict(ninfo=3, numbers=[0, 1, 2], nchains=1, chain=0, types=[0], rot=0, jid='str', links='none', fid='str', fform=0, tool='none', tform=0, dev='none', bform=0, src=['dict'])


def shards(tier):
    return [[tier, w, i] for w in ('spell', 'nums', 'tool', 'mal') for i in range(8)]


def cases(sh):
    tier, w, i = sh
    q = tier == 'quick'
    n = 0
    if w == 'spell':
        for m, v in enumerate(itertools.product(*FIELDS.values())):
            o = dict(zip(FIELDS, v))
            # an unused spelling is not a new case
            if o['tform'] and o['tool'] in ('none', 'null', 'notcp', 'nulltcp') or o['bform'] and o['dev'] != 'pose':
                continue
            n += 1
            if n % 8 != i:
                continue
            nch = 1 + n // 8 % 2
            yield 'load', dict(D0, **dict(o, rot=n // 8 % 238, lim=n // 8 % 9, src=['dict'] + ([SRC[1 + n // 136 % 3]] if not q or n // 8 % 17 == 0 else []), nchains=nch, chain=n // 16 % nch, numbers=[[0, 1, 2], [0, 2], [1]][n // 24 % 3], types=[0, 1, 0][n // 72 % 2:]))
    elif w == 'nums':
        for ninfo in range(1, 9):
            for k in range(1, min(ninfo, 7) + 1):
                for nums in itertools.combinations(range(ninfo), k):
                    n += 1
                    if n % 8 != i:
                        continue
                    if ninfo > 6 and q and n // 8 % 3 > 0:
                        continue
                    for nch in (1, 2, 3):
                        yield 'load', dict(D0, ninfo=ninfo, numbers=list(nums), nchains=nch, chain=(n + nch) % nch, rot=n % 238, lim=n // 8 % 9, jid='mixed', links='str', types=[0, 1, 1, 0, 1, 0, 0, 1],
                                           src=[SRC[n // 8 % 4], 'dict'], tool=('named', 'none')[n // 8 % 2], dev='pose')
        for k in range(1, 5):
            for t in itertools.product((0, 1), repeat=k):
                n += 1
                if n % 8 == i:
                    for s in SRC:
                        yield 'load', dict(D0, ninfo=k, numbers=list(range(k)), types=list(t), src=[s])
    elif w == 'tool':
        tools = [dict(i=a, form=f, dev=d, src=[SRC[(a + f) % 4], SRC[(a + f + 1) % 4]]) for a in range(len(QS)) for f in (0, 1) for d in (('str', 'dict', 'full') if a < 5 else ('str',))]
        for t in FIELDS['tool']:
            for fid in FIELDS['fid']:
                for links in ('none', 'str', 'dict'):
                    n += 1
                    if n % 8 == i:
                        nch = 1 + n // 8 % 3
                        yield 'tool', dict(D0, tool=t, fid=fid, links=links, dev=FIELDS['dev'][n % 5], nchains=nch, chain=n // 24 % nch, src=[SRC[n // 8 % 4], SRC[(n // 8 + 1) % 4]], tools=tools, rot=n % 238)
    else:
        D = [dict(), dict(ninfo=6, numbers=[1, 3, 4], nchains=2, chain=1, types=[0, 1]), dict(ninfo=2, numbers=[1], nchains=3, chain=1, tool='named', dev='pose')]
        if not q:
            D += [dict(ninfo=7, numbers=list(range(7))), dict(ninfo=8, numbers=[0, 7], tool='tcp'), dict(ninfo=1, numbers=[0], links='dict'), dict(ninfo=4, numbers=[2, 3], nchains=2, chain=0),
                  dict(ninfo=5, numbers=[0, 4], nchains=4, chain=3, jid='null'), dict(ninfo=6, numbers=list(range(6)), fid='null'), dict(ninfo=9, numbers=[8], links='str')]
        for d in D:
            for m in MAL:
                n += 1
                if n % 8 == i and not ((m == 'joint_info2' and d.get('ninfo') in (None, 6, 7, 8, 5, 9) and 0) or skip(m, dict(D0, **d))):
                    yield 'mal', dict(D0, **dict(d, m=m))
            n += 1
            if n % 8 == i:
                yield 'index', dict(D0, **d)


def skip(m, d):
    """Damage that leaves a description that is still valid."""
    n = d['numbers']
    if m == 'joint_info2':
        return d['ninfo'] > 4 and n == [0]
    return False
