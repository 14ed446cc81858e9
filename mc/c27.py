"""C27: the iterated-smoother and Lorenz-96 experiment scripts, from every earlier store and at every crash point."""
import contextlib
import io
import itertools
import math
import os
import runpy
import shutil
import sqlite3
import tempfile

import numpy as np

from . import core

ID = 'C27'
TITLE = 'experiment scripts store the scores of the run each row names'
LEVEL = 'fault_enumeration'
RULE = ('each script is run from every listed earlier store and the database is copied, as a kill would leave it, at every model '
        'run, SQL statement and commit; every distinct committed state is read with a fresh connection and compared with '
        'independently computed rows; the scripts are run again from what every crash left behind; non-trivial: distinct '
        'committed states')
ASSUMPTIONS = ['where crashes are enumerated the systems simulate 2 steps and the iterated smoother runs 2 iterations instead of the 50 to 100 that the scripts ask '
               'for; in the Lorenz-96 EP script a one-dimensional system and transform stand in for those of dimension 5 to 200; at full length of the trajectories a stand-in for the iterated smoother gives the estimates',
               'a killed process leaves the operating system\'s view of the files']

SEEDS = [101, 201, 301, 401, 501, 601, 701, 801, 901, 1001]
STEPS = 2
SCRIPTS = {'ungm': ('IEKS_Sweep_UNGM.py', 'IEKS_ungm.db', 'UNGM_EXP', ('Seed', 'Iter')),
           'bott': ('IEKS_Sweep_BearingsOnly.py', 'IEKS_bott.db', 'BOTT_EXP', ('Quantity', 'Seed', 'Iter')),
           'l96': ('IEKS_Sweep_L96.py', 'IEKS_L96.db', 'L96_EXP', ('dim', 'Seed', 'Iter')),
           'ep96': ('EP_Sweep_L96.py', 'L96_dim_experiment_3.db', 'L96_EXP', ('Transform', 'Seed', 'dim', 'Iter', 'Power', 'Damping'))}
REPEATABLE = ('ungm', 'bott', 'l96')


def cases(tier):
    q = tier == 'quick'
    out = [{'kind': 'crash', 'script': s} for s in ('ep96', 'l96', 'bott', 'ungm')]
    out += [{'kind': 'full', 'script': s} for s in REPEATABLE]
    for s in REPEATABLE:
        count = 30 if s == 'l96' else 10
        for k in range(count + 1):                     # what an interrupted run leaves behind
            if s == 'l96' and q and k not in (0, 10, 29):
                continue
            out.append({'kind': 'resume', 'script': s, 'stored': list(range(k))})
        sets = [[j] for j in range(count)] + [[j for j in range(count) if j % 2 == p] for p in (0, 1)]
        if not q:
            sets += [list(c) for c in itertools.combinations(range(10), 2)]
        for st in sets if not (q and s != 'ungm') else sets[3:30:20] + sets[-1:]:
            out.append({'kind': 'resume', 'script': s, 'stored': st, 'sentinels': True})
    return out


# ---------------------------------------------------------------------------------------------------------- the stand-ins
class World:
    def __init__(self, script, full=False):
        self.script, self.full = script, full
        self.steps = []
        self.iters, self.dims = [], []
        self.hook = None

    def point(self, what):
        if self.hook is not None:
            self.hook(what)


def short(base, world):
    class Short(base):
        def simulate(self, N, *a, **k):
            world.point('simulation')
            world.steps.append(N)
            return super().simulate(N if world.full else STEPS, *a, **k)
    Short.__name__ = base.__name__
    return Short


def pretend(ys, n):
    """Estimates for trajectories of any length, in place of an iterated smoother: of every size, correlated, some far off."""
    out = []
    for i, y in enumerate(ys):
        y = np.ravel(y)
        B = np.eye(n) + .4 * np.cos(np.arange(n)[:, None] * 1.3 + 2.1 * np.arange(n)[None, :] + i)
        out.append((np.array([(y[j % len(y)] + .1 * j) * (1 if i % 9 else 3) for j in range(n)]),
                    (B @ B.T + .1 * np.eye(n)) * (1e-3, 1., 50.)[i % 3]))
    return out


def small96(world):
    """One-dimensional stand-in for Lorenz-96 whose observations depend on the dimension asked for."""
    from Systems import GaussianNoise, UniformNonlinearGrowthModel

    class Small(UniformNonlinearGrowthModel):
        def __init__(self, *a, dim=40, **k):
            super().__init__()
            world.dims.append(('system', dim))
            self._measurement_noise = GaussianNoise(dimension=1, cov=np.eye(1) * (1. + dim / 10.))

        def simulate(self, N, *a, **k):
            world.point('simulation')
            return super().simulate(STEPS, *a, **k)
    return Small


@contextlib.contextmanager
def patched(world):
    import Systems
    import MomentMatching
    from ExpectationPropagation import Nodes
    from Filters import KalmanFilter
    saved = []

    def put(mod, name, value):
        saved.append((mod, name, getattr(mod, name)))
        setattr(mod, name, value)
    real = KalmanFilter.IEKS
    UT, TT = MomentMatching.UnscentedTransform, MomentMatching.TaylorTransform
    build = Nodes.build_nodes
    connect = sqlite3.connect

    class Few(real):
        def __init__(self, system_model, sys_dim, *a, **k):
            world.size = sys_dim
            super().__init__(system_model, sys_dim, *a, **k)

        def __call__(self, measurements, num_iter=5, *a, **k):
            world.iters.append(num_iter)
            world.point('next run')
            if world.full:
                from StateModel import Gaussian
                return [Gaussian(m, P) for m, P in pretend(measurements, world.size)]
            return super().__call__(measurements, min(num_iter, 2), *a, **k)

    def transform(cls):
        def make(dim=1, number_of_samples=None, **k):
            world.dims.append(('transform', dim))
            return cls(dim=1, **k)
        return make

    def few_nodes(N, dim, *a, **k):
        world.dims.append(('graph', dim))
        world.point('next run')
        return build(STEPS, 1, *a, **k)

    class Cur(sqlite3.Cursor):
        def execute(self, *a):
            world.point('before statement')
            r = super().execute(*a)
            world.point('after statement')
            return r

    class Conn(sqlite3.Connection):
        def cursor(self, *a):
            return super().cursor(Cur)

        def execute(self, *a):
            return self.cursor().execute(*a)

        def commit(self):
            world.point('before commit')
            super().commit()
            world.point('after commit')

    opened = []

    def conn(path, *a, **k):
        k.setdefault('factory', Conn)
        hook, world.hook = world.hook, None
        c = connect(path, *a, **k)
        c.execute('PRAGMA synchronous=OFF')
        world.hook = hook
        opened.append(c)
        return c
    try:
        put(sqlite3, 'connect', conn)
        put(KalmanFilter, 'IEKS', Few)
        if world.script == 'ep96':
            put(Systems, 'L96', small96(world))
            put(MomentMatching, 'UnscentedTransform', transform(UT))
            put(MomentMatching, 'TaylorTransform', transform(TT))
            put(MomentMatching, 'MonteCarloTransform', transform(UT))
            put(Nodes, 'build_nodes', few_nodes)
        else:
            for name in ('UniformNonlinearGrowthModel', 'BearingsOnlyTrackingTurn', 'L96'):
                put(Systems, name, short(getattr(Systems, name), world))
        yield
    finally:
        for mod, name, v in reversed(saved):
            setattr(mod, name, v)
        world.hook = None
        for c in opened:
            c.close()


def execute(world):
    path = os.path.join(core.REPO, 'Experiments', SCRIPTS[world.script][0])
    np.random.seed(0)
    with patched(world), contextlib.redirect_stdout(io.StringIO()):
        runpy.run_path(path, run_name='__main__')


# ----------------------------------------------------------------------------------------------------------- expectations
def score(states, xs, ix=None):
    se, nl = [], []
    for s, x in zip(states, xs):
        m, P, x = np.ravel(s[0]), np.asarray(s[1]), np.ravel(x)
        sel = list(range(len(m))) if ix is None else ix
        d, S = (m - x)[sel], P[np.ix_(sel, sel)]
        se.append(float(d @ d))
        nl.append(.5 * float(d @ np.linalg.solve(S, d)) + .5 * math.log(np.linalg.det(S)) + .5 * len(sel) * math.log(2 * math.pi))
    return math.sqrt(sum(se) / len(se)), sum(nl) / len(nl)


_CACHE = {}


def expected(script):
    if script not in _CACHE:
        _CACHE[script] = compute(script)
    return _CACHE[script]


def compute_full(script, N):
    import Systems
    dims, iters = {'ungm': ([1], 50), 'bott': ([5], 50), 'l96': ([5, 10, 20], 10)}[script]
    groups = []
    for dim, seed in itertools.product(dims, SEEDS):
        s = {'ungm': Systems.UniformNonlinearGrowthModel, 'bott': Systems.BearingsOnlyTrackingTurn,
             'l96': lambda: Systems.L96(dim=dim, init_cond_path='../log/L96_initial_condition_F_8_dim_%d.npy' % dim)}[script]()
        np.random.seed(seed)
        xs, ys = zip(*s.simulate(N))
        states = pretend(ys, dim)
        if script == 'bott':
            groups.append([((name, seed, float(iters)),) + score(states, xs, ix)
                           for name, ix in (('position', [0, 2]), ('velocity', [1, 3]), ('angle', [4]))])
        else:
            groups.append([(((dim,) if script == 'l96' else ()) + (seed, float(iters)),) + score(states, xs)])
    return groups


def do_full(case, rec, d):
    """The trajectories at their full length; only the iterated smoother is replaced, by one that answers at once."""
    script = case['script']
    world = World(script, full=True)
    execute(world)
    rec.require(len(set(world.steps)) == 1, 'trajectories of %s steps' % sorted(set(world.steps)))
    groups = compute_full(script, world.steps[0])
    want = {k: (a, b) for g in groups for k, a, b in g}
    got = judge(rec, script, read(script, os.path.join(d, 'log', SCRIPTS[script][1])), want, groups,
                'trajectories of %d steps' % world.steps[0], complete=range(len(groups)))
    rec.require(len(got) == len(want), 'after the run: %d rows instead of %d' % (len(got), len(want)))
    check_world(rec, world, groups)
    rec.step()
    rec.state(script, 'full')
    rec.outcome(script, 'full')


def compute(script):
    """[[(key, rmse, nll), ...] for every run in the order of the documented grid]; keys as in SCRIPTS"""
    import Systems
    world = World(script)
    groups = []
    if script == 'ep96':
        from ExpectationPropagation import Iterations
        from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
        from MomentMatching import UnscentedTransform
        from MomentMatching.Estimator import Estimator
        make = small96(world)
        for dim, seed in itertools.product([5, 10, 20, 40, 100, 200], SEEDS):
            s = make(dim=dim)
            np.random.seed(seed)
            xs, ys = zip(*s.simulate(STEPS))
            for power in (1.0, .8, .1):
                est = Estimator(trans_map=UnscentedTransform(dim=1), meas_map=UnscentedTransform(dim=1),
                                trans_noise=s.transition_noise.cov, meas_noise=s.measurement_noise.cov, power=power, damping=1.0)
                nodes = node_system(nodes=node_estimator(nodes=build_nodes(STEPS, 1), estimator=est), system_model=s, measurements=ys)
                rows = []
                for it in range(10):
                    Iterations.ep_fwd_back_updates(nodes)
                    rows.append((('MCT', seed, dim, float(it), power, 1.0),) +
                                score([(v.marginal.mean, v.marginal.cov) for v in nodes], xs))
                groups.append(rows)
        return groups
    from Filters.KalmanFilter import IEKS
    dims, iters = {'ungm': ([1], 50), 'bott': ([5], 50), 'l96': ([5, 10, 20], 10)}[script]
    for dim, seed in itertools.product(dims, SEEDS):
        s = {'ungm': Systems.UniformNonlinearGrowthModel, 'bott': Systems.BearingsOnlyTrackingTurn,
             'l96': lambda: Systems.L96(dim=dim, init_cond_path='../log/L96_initial_condition_F_8_dim_%d.npy' % dim)}[script]()
        np.random.seed(seed)
        xs, ys = zip(*s.simulate(STEPS))
        states = [(q.mean, q.cov) for q in IEKS(s, dim)(ys, 2)]
        if script == 'bott':
            groups.append([((name, seed, float(iters)),) + score(states, xs, ix)
                           for name, ix in (('position', [0, 2]), ('velocity', [1, 3]), ('angle', [4]))])
        else:
            groups.append([(((dim,) if script == 'l96' else ()) + (seed, float(iters)),) + score(states, xs)])
    return groups


def read(script, path):
    _, _, table, cols = SCRIPTS[script]
    con = sqlite3.connect(path)
    try:
        if not con.execute("SELECT name FROM sqlite_master WHERE name='%s'" % table).fetchall():
            return []
        return con.execute('SELECT %s, RMSE, NLL FROM %s' % (', '.join(cols), table)).fetchall()
    finally:
        con.close()


def near(a, b):
    return isinstance(a, float) and math.isfinite(a) and abs(a - b) <= 1e-7 * (1 + abs(b))


def judge(rec, script, rows, want, groups, what, complete=None, seen=None):
    """rows: what is stored. Every row is right, no key twice, every run has all its rows or (unless a run may be under way
    row by row) none."""
    got = set()
    for r in rows:
        key = tuple(r[:-2])
        if key in got:
            rec.fail('%s: %s is stored twice' % (what, key))
        got.add(key)
        if seen is not None and r in seen:
            continue
        if key not in want:
            rec.fail('%s: unexpected row %s' % (what, r))
        if not (near(r[-2], want[key][0]) and near(r[-1], want[key][1]) or tuple(r[-2:]) == want[key]):
            rec.fail('%s: %s is stored as RMSE %s, NLL %s instead of %s' % (what, key, r[-2], r[-1], want[key]))
        if seen is not None:
            seen.add(r)
    for k, g in enumerate(groups):
        if complete is None and script == 'ep96':
            break
        have = sum(r[0] in got for r in g)
        if complete is not None and k in complete and have != len(g):
            rec.fail('%s: only %d of the %d rows of the finished run %s are stored' % (what, have, len(g), g[0][0]))
        if script != 'ep96' and have not in (0, len(g)):
            rec.fail('%s: %d of the %d rows of run %s are stored' % (what, have, len(g), g[0][0]))
    return got


@contextlib.contextmanager
def place():
    home = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='c27-', dir='.') as d:
        d = os.path.abspath(d)
        os.mkdir(d + '/run')
        os.mkdir(d + '/log')
        os.chdir(d + '/run')
        try:
            yield d
        finally:
            os.chdir(home)


def run(case, rec):
    with place() as d:
        globals()['do_' + case['kind']](case, rec, d)
    rec.ran()
    rec.trace()


def check_world(rec, world, groups):
    if world.script == 'ep96':
        want = []
        for g in groups:
            if not want or want[-1] != g[0][0][2]:
                want.append(g[0][0][2])
        for kind in ('system', 'graph', 'transform'):
            rec.require(sorted(set(v for k, v in world.dims if k == kind)) == sorted(set(want)),
                        'the script ran with %s dimensions %s' % (kind, sorted(set(v for k, v in world.dims if k == kind))))
    else:
        stored = sorted(set(k[-1] for g in groups for k, _, _ in g))
        rec.require(sorted(set(map(float, world.iters))) == stored,
                    'the runs stored as %s iterations were run with %s' % (stored, sorted(set(world.iters))))


def do_crash(case, rec, d):
    script = case['script']
    groups = expected(script)
    want = {k: (a, b) for g in groups for k, a, b in g}
    world = World(script)
    db = os.path.join(d, 'log', SCRIPTS[script][1])
    snap = os.path.join(d, 'snap')
    state = {'data': None, 'rows': 0, 'points': 0, 'runs': 0}
    seen = set()

    def hook(what):
        state['points'] += 1
        if what == 'next run':
            state['runs'] += 1
        if not os.path.exists(db):
            return
        data = open(db, 'rb').read()
        if os.path.exists(db + '-journal'):
            data += open(db + '-journal', 'rb').read()
        if data == state['data'] and what != 'next run':
            return
        state['data'] = data
        os.mkdir(snap)
        for suffix in ('', '-journal'):
            if os.path.exists(db + suffix):
                shutil.copy(db + suffix, os.path.join(snap, 't.db' + suffix))
        keep, world.hook = world.hook, None
        try:
            rows = read(script, os.path.join(snap, 't.db'))
        finally:
            world.hook = keep
            shutil.rmtree(snap)
        got = judge(rec, script, rows, want, groups, 'killed at point %d (%s)' % (state['points'], what), seen=seen)
        if what == 'next run':
            full = sum(all(r[0] in got for r in g) for g in groups)
            rec.require(full >= state['runs'] - 1, 'killed at point %d (%s): the rows of only %d of %d finished runs are stored' % (
                state['points'], what, full, state['runs'] - 1))
        rec.require(len(rows) >= state['rows'], 'killed at point %d (%s): stored rows were lost' % (state['points'], what))
        state['rows'] = len(rows)
        rec.step()
        if rec.state(script, len(rows)):
            rec.outcome(script, len(rows))
    world.hook = hook
    execute(world)
    got = judge(rec, script, read(script, db), want, groups, 'after the run', complete=range(len(groups)))
    rec.require(len(got) == len(want), 'after the run: %d rows instead of %d' % (len(got), len(want)))
    check_world(rec, world, groups)
    rec.count('crash_points', state['points'])


def do_resume(case, rec, d):
    """Run on a store that holds some of the runs: right rows as a crash leaves them, or recognisable ones."""
    script = case['script']
    groups = expected(script)
    want = {k: (a, b) for g in groups for k, a, b in g}
    _, dbname, table, cols = SCRIPTS[script]
    db = os.path.join(d, 'log', dbname)
    mod = runpy.run_path(os.path.join(core.REPO, 'Experiments', SCRIPTS[script][0]), run_name='script')
    con = sqlite3.connect(db)
    mod['create_experiment_table'](con.cursor(), table)
    for j in case['stored']:
        for key, a, b in groups[j]:
            if case.get('sentinels'):
                a, b = want[key] = (-100. - j, -200. - j)
            con.execute('INSERT INTO %s (%s, RMSE, NLL) VALUES (%s)' % (table, ', '.join(cols), ', '.join('?' * (len(cols) + 2))),
                        key + (a, b))
    con.commit()
    con.close()
    for time in (1, 2):
        world = World(script)
        execute(world)
        got = judge(rec, script, read(script, db), want, groups, 'run %d on a store with %d runs' % (time, len(case['stored'])),
                    complete=range(len(groups)))
        rec.require(len(got) == len(want), 'run %d: %d rows instead of %d' % (time, len(got), len(want)))
        if time == 1 and len(case['stored']) < len(groups):
            check_world(rec, world, groups)
        rec.step()
        if case.get('sentinels'):
            break
    rec.state(script, case['stored'], case.get('sentinels'))
    rec.outcome(script, case['stored'], case.get('sentinels'))
