"""Worker of C28: an interpreter started with given options that runs all calls under given combinations of process settings.
Usage: python [flags] envworker.py REPO SCRATCH < json list of combinations; writes one JSON list of outcomes per combination to SCRATCH/out."""
import sys, os, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def calls(C, np, rox, scratch):
    """(name, zero-argument function)"""
    import math
    from mc import ref, robots
    for name, (f, keys) in C.ops(True).items():
        if not name.startswith('str/'):
            yield name, lambda f=f, keys=keys: f(*[C.pool(k) for k in keys])
    # degenerate arguments, where a careless formula divides by zero
    A = lambda *x: np.array(x, dtype=float)
    E = [A(1, 0, 0), A(0, 1, 0), A(0, 0, 1), A(0, -1, 0)]
    V = E + [A(0, 0, 0), A(.6, 0, .8), A(3, 0, 0)]
    yield 'cube group', lambda: [(rox.R2rot(M), rox.R2q(M)) for M in [np.array(M, dtype=float) for M in ref.cube_group()]]
    for n, M in enumerate(ref.cube_group()):
        yield 'R2rpy cube %d' % n, lambda M=M: rox.R2rpy(np.array(M, dtype=float))
    qs = [np.array(ref.m2q(np.array(M, dtype=float))) for M in ref.cube_group()]
    for i in range(4):
        for t in (0., .5, 1.):
            yield 'slerp %d %g' % (i, t), lambda i=i, t=t: [rox.slerp(qs[i], s * b, t) for b in qs for s in (1, -1)]
    yield 'q2rot', lambda: [rox.q2rot(q) for q in qs + [-q for q in qs]]
    for i, p in enumerate(V):
        for j, q in enumerate(V):
            for k in E[1:3]:
                if i != 4 and j != 4:
                    yield 'subproblem1 %s' % [i, j, list(k)], lambda p=p, q=q, k=k: rox.subproblem1(p, q, k)
                    yield 'subproblem0 %s' % [i, j, list(k)], lambda p=p, q=q, k=k: rox.subproblem0(p, q, k)
                yield 'subproblems %s' % [i, j, list(k)], lambda p=p, q=q, k=k: ([rox.subproblem3(p, q, k, d) for d in (0., 1., 2., 9.)], [rox.subproblem4(p, q, k, d) for d in (0., 1., -1., 9.)])
                if i != 4 and j != 4:
                    yield 'subproblem2 %s' % [i, j, list(k)], lambda p=p, q=q, k=k: [rox.subproblem2(p, q, k2, k) for k2 in E]
    for name, f in (('abb', rox.robot6_sphericalwrist_invkin), ('puma', rox.robot6_sphericalwrist_invkin), ('ur5', rox.ur_invkin)):
        for n, q in enumerate(([0.] * 6, [0, 0, 0, 0, .5, 0], [.3, 0, 0, 0, 0, .2], [.4, -.5, .6, 0, 0, 0], [0., 0, 0, 0, math.pi / 2, 0])):
            def sing(name=name, f=f, q=q):
                s = C.robot_spec(name)
                r, T = robots.build(s), robots.TH(ref.fk(s, q))
                return f(r, T), f(r, T, A(*q)), rox.iterative_invkin(r, T, A(*q)), rox.iterative_invkin(r, T, A(*q) + 1e-3, 5)[0], rox.robotjacobian(r, A(*q))
            yield '%s at %s' % (name, q), sing
    def far():
        s = C.robot_spec('abb')
        r = robots.build(s)
        return [rox.iterative_invkin(r, rox.Transform(np.eye(3), A(50, 3, 4)), A(*C.q_of('abb')))[0], rox.iterative_invkin(r, robots.TH(ref.fk(s, [.1, .2, .3, .4, .3, .2])), A(0, 0, 0, 0, .1, 0))]
    yield 'long search', far
    # files
    from general_robotics_toolbox import urdf as ru, robotraconteur as rr
    yield 'urdf file', lambda: [ru.robot_from_xml_file(os.path.join(scratch, 'plain.urdf')), ru.robot_from_xml_file(os.path.join(scratch, 'plain.urdf'), None, 'a', 'b')]
    for n in ('utf8', 'bom', 'latin', 'utf16'):
        yield 'urdf text with other letters, ' + n, lambda n=n: ru.robot_from_xml_string(open_text(os.path.join(scratch, ('latin' if n == 'latin' else 'utf8') + '.txt')))
        yield 'urdf file with other letters, ' + n, lambda n=n: ru.robot_from_xml_file(os.path.join(scratch, n + '.urdf'))
    yield 'urdf ambiguous', lambda: ru.robot_from_xml_string(C.URDF.replace('</robot>', '<link name="u"/><joint name="j3" type="fixed"><parent link="w"/><child link="u"/></joint></robot>'))
    yield 'yaml stream', lambda: rr.load_robot_info_yaml_to_robot(open_text(os.path.join(scratch, 'r.yml')))


def open_text(f):
    with open(f, encoding='utf-8') as h:
        return h.read()


def apply(name, value, scratch):
    import warnings, random, gc
    import numpy as np
    if name == 'err':
        if value == 'call':
            def bad(kind, flag):
                raise FloatingPointError(kind)
            np.seterrcall(bad)
        np.seterr(all=value, under='ignore')
    elif name == 'warn':
        if value == 'error':
            for c in (RuntimeWarning, FutureWarning, SyntaxWarning, BytesWarning, ResourceWarning, UnicodeWarning):
                warnings.simplefilter('error', c)
        else:
            warnings.simplefilter(value)
    elif name == 'print':
        np.set_printoptions(precision=2, suppress=True, threshold=3, edgeitems=1, linewidth=20, **(dict(legacy='1.13') if value == 'old' else {}))
    elif name == 'rnd':
        np.random.seed(value)
        random.seed(value)
    elif name == 'gc':
        gc.disable() if value == 'off' else gc.set_threshold(1)
    elif name == 'trace':
        (sys.setprofile if value == 'profile' else sys.settrace)(lambda *a: None)
    elif name == 'cwd':
        d = os.path.join(scratch, 'gone%d' % os.getpid())
        os.mkdir(d)
        os.chdir(d)
        if value == 'gone':
            os.rmdir(d)
    elif name == 'std':
        sys.stdin = sys.stdout = sys.stderr = None
    elif name == 'dec':
        import decimal, locale
        decimal.getcontext().prec = 2
        locale.setlocale(locale.LC_ALL, 'C')
    elif name == 'switch':
        sys.setswitchinterval(value)
    elif name == 'argv':
        sys.argv = ['x', '--help'] if value else []
    elif name == 'env':
        os.environ.clear()
    elif name == 'path':
        sys.path[:] = []
    elif name == 'buf':
        np.setbufsize(value)


def main():
    repo, scratch = sys.argv[1:3]
    combos = json.load(sys.stdin)
    sys.path[:0] = [VERIF, os.path.join(repo, 'src')]
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    import general_robotics_toolbox as rox
    from mc import catalog as C
    todo = list(calls(C, np, rox, scratch))
    out = open(os.path.join(scratch, 'out'), 'w', encoding='utf-8')
    for combo in combos:
        fn = os.path.join(scratch, 'text%d' % len(os.listdir(scratch)))
        out.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                fd = os.open(fn, os.O_CREAT | os.O_RDWR)
                keep = os.dup(2)
                os.dup2(fd, 1), os.dup2(fd, 2)
                warnings.showwarning = lambda *a, **k: None
                d = dict(map(tuple, combo))
                res = []

                def work():
                    for k, v in combo:
                        if k != 'where':
                            apply(k, v, scratch)
                    for n, f in todo:
                        res.append(C.run(f, ())[0])
                if d.get('where') == 'thread':
                    import threading
                    t = threading.Thread(target=work)
                    t.start()
                    t.join()
                elif d.get('where') == 'async':
                    import asyncio

                    async def co():
                        work()
                    asyncio.run(co(), debug=False)
                else:
                    work()
                sys.setprofile(None), sys.settrace(None)
                for s in (sys.stdout, sys.stderr):
                    if s:
                        s.flush()
                np.seterr(all='ignore')
                text = os.pread(fd, 300, 0).decode('utf-8', 'replace')
                json.dump([res, text], out)
                out.write('\n')
                out.flush()
                code = 0
            except BaseException:
                import traceback
                os.write(keep, traceback.format_exc().encode())
            os._exit(code)
        if os.waitpid(pid, 0)[1]:
            sys.exit('a worker ended early under %s' % combo)
        os.unlink(fn)
    json.dump([n for n, f in todo], out)


if __name__ == '__main__':
    main()
