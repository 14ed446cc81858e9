"""C24: every stored/partial/failed state of every configuration of a small sweep, with and without override."""
import contextlib
import inspect
import io
import itertools
import os
import sqlite3
import tempfile

import numpy as np
from numpy.linalg import LinAlgError

from . import c23, models

ID = 'C24'
TITLE = 'experiment sweeps run exactly the missing configurations'
LEVEL = 'model_checking'
RULE = ('every assignment of {absent, stored, interrupted, stored for another iteration count} to the configurations of a small '
        'sweep, with and without override, and every set of failing configurations; the store afterwards is compared with '
        'independently computed records (sentinels mark what must stay untouched); the command-line entry points on the same '
        'states; non-trivial: distinct (states, override, failures)')
ASSUMPTIONS = ['deterministic transforms (a Monte-Carlo configuration draws from the global generator: only its presence and its '
               'lack of influence on the others are checked)',
               'a numerical failure is a LinAlgError during set-up or scoring']

STATES = ('absent', 'stored', 'interrupted', 'longer', 'foreign')


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(**k):
        out.append(k)
    base = {'variant': 'full', 'model': 'sin1', 'N': 2, 'K': 2}
    cfg4 = [(5, 'UT', 1, 1), (5, 'TT', 1, 1), (5, 'UT', .3, 1), (5, 'TT', .3, 1)]
    seeds = {'seeds': [5, 6], 'trans': ['UT'], 'powers': [1, .5], 'damps': [1.]}
    trans = {'seeds': [5], 'trans': ['TT', 'UT'], 'powers': [.3], 'damps': [1., .8]}
    one = {'seeds': [7], 'trans': ['UT'], 'powers': [.1 + .2, .3], 'damps': [.7, .8]}
    for grid in (seeds, trans, one):
        for st in itertools.product(range(len(STATES)), repeat=4):
            if q and grid is one and 3 in st:
                continue
            for override in (False, True):
                if q and override and 2 in st and 3 in st:
                    continue
                add(kind='states', grid=grid, states=list(st), override=override, **base)
    # stored results that are zero, infinite or not a number (NULL) are results all the same
    for marks in ('zero', 'null', 'nonll', 'inf'):
        for st in itertools.product((0, 1, 2, 4), repeat=4) if not q else itertools.product((0, 1), repeat=4):
            add(kind='states', grid=trans, states=list(st), override=False, marks=marks, **base)
        for st in itertools.product((0, 1, 2), repeat=2):
            add(kind='states', grid={'seeds': [5, 8], 'trans': ['UT'], 'powers': [1], 'damps': [1.]}, states=list(st),
                override=False, marks=marks, variant='bearings', model='BOTT', N=2, K=2)
    # failures: every stored set x every failing set x the point of failure
    for grid in (seeds, trans):
        keys = 2 if grid is seeds else 4
        for st in itertools.product((0, 1), repeat=4):
            for bad in itertools.product((0, 1), repeat=keys):
                if not any(bad):
                    continue
                for at in (0, 1, 2):
                    if q and (at == 1) and st != (0, 0, 0, 0):
                        continue
                    for override in (False, True):
                        if q and override and sum(st) not in (0, 4):
                            continue
                        add(kind='fail', grid=grid, states=list(st), bad=list(bad), at=at, override=override, **base)
    # floats used as keys: all the powers of the real sweeps, one stored at a time
    for j in range(10):
        add(kind='states', grid={'seeds': [101], 'trans': ['TT'], 'powers': 'linspace', 'damps': [1.0]}, model='sin1', N=1, K=1,
            variant='full', states=[1 if i == j else 0 for i in range(10)], override=False)
        add(kind='states', grid={'seeds': [101], 'trans': ['TT'], 'powers': 'linspace', 'damps': [.8]}, model='sin1', N=1, K=1,
            variant='full', states=[0 if i == j else 1 for i in range(10)], override=False)
    # other systems and lengths
    for name, N, K in (('pend2', 3, 1), ('polar2', 1, 3), ('UNGM', 4, 2), ('BOT', 2, 2)):
        for st in itertools.product((0, 1, 2), repeat=2):
            for override in (False, True):
                add(kind='states', grid={'seeds': [5], 'trans': ['UT', 'TT'], 'powers': [1], 'damps': [.9]}, model=name, N=N, K=K,
                    variant='full', states=list(st), override=override)
    # real runs instead of sentinels: any subset computed first, then the rest
    for st in itertools.product((0, 1), repeat=4):
        for k0 in (1, 2, 3):
            add(kind='resume', grid=trans, first=list(st), K0=k0, **base)
    # a store that already holds a shorter or a longer trajectory of a seed, or the trajectory of another one
    for n0 in (1, 2, 3, 4):
        for who in ([5], [6], [5, 6], [9]):
            for K0 in (0, 2):
                for override in (False, True):
                    add(kind='store', grid=seeds, before=who, N0=n0, K0=K0, override=override, **base)
                    if who == [5]:
                        add(kind='store', grid={'seeds': [5], 'trans': ['TT'], 'powers': [1], 'damps': [1.]}, before=who, N0=n0,
                            K0=K0, override=override, variant='bearings', model='BOTT', N=2, K=2)
    # the bearings-only variant
    bo = {'variant': 'bearings', 'model': 'BOTT', 'N': 2, 'K': 2}
    g2 = {'seeds': [5, 8], 'trans': ['UT'], 'powers': [1], 'damps': [1.]}
    g3 = {'seeds': [5], 'trans': ['TT', 'UT'], 'powers': [1], 'damps': [.9]}
    for g in (g2, g3):
        for st in itertools.product(range(len(STATES)), repeat=2):
            for override in (False, True):
                add(kind='states', grid=g, states=list(st), override=override, **bo)
    for st in itertools.product((0, 1), repeat=2):
        for bad in ((1, 0), (0, 1), (1, 1)):
            for at in (0, 1, 2):
                add(kind='fail', grid=g3, states=list(st), bad=list(bad), at=at, override=False, **bo)
    # Monte Carlo between the others
    for order in (['MCT', 'UT'], ['UT', 'MCT'], ['TT', 'MCT', 'UT']):
        add(kind='mct', grid={'seeds': [5, 6], 'trans': order, 'powers': [1], 'damps': [1.]}, **base)
    # command line
    for variant, sysname in (('full', 'UNGM'), ('full', 'BOT'), ('full', 'BOTT'), ('bearings', 'BOTT')):
        for override in (False, True):
            if override and q and sysname != 'UNGM':
                continue
            for missing in ([], [0], [9, 10], [19]) if not override else ([5],):
                if sysname != 'UNGM' and q and missing not in ([9, 10],):
                    continue
                add(kind='cli', variant=variant, model=sysname, override=override, missing=missing)
    # the 40-dimensional system; several seeds and transforms; and everything left at its default (one run missing)
    add(kind='cli', variant='full', model='L96full', override=False, missing=[3], trans=['UT'])
    add(kind='cli', variant='full', model='UNGM', override=False, missing=[7, 40, 61], trans=['UT', 'TT'], seeds=[9, 4], iters=2)
    add(kind='cli', variant='bearings', model='BOTT', override=False, missing=[7, 61], trans=['UT', 'TT'], seeds=[9, 4], iters=1)
    for variant, sysname in (('full', 'UNGM'), ('bearings', 'BOTT')):
        for j in (38,) if q else (0, 20, 29, 38, 39):
            add(kind='cli', variant=variant, model=sysname, override=False, missing=[j], trans=['TT', 'UT', 'MCT'], seeds=[101],
                iters=50, defaults=True)
    if not q:
        big = {'seeds': [1, 2], 'trans': ['TT', 'UT'], 'powers': [1, .5], 'damps': [1.]}
        for st in itertools.product((0, 1), repeat=8):
            add(kind='states', grid=big, states=list(st), override=False, **base)
    out.sort(key=lambda c: c['kind'] == 'cli', reverse=False)
    out = [c for c in out if c['kind'] == 'cli'] + [c for c in out if c['kind'] != 'cli']      # long ones first
    return out


# ------------------------------------------------------------------------------------------------------------ the world
def module(variant):
    if variant == 'bearings':
        from Experiments import EP_Sweep_BearingsOnly as M
    else:
        from Experiments import EP_FullSweep as M
    return M


def system(name):
    if name == 'L96full':
        from Systems import L96
        return L96()
    if name in models.BENCH:
        return models.bench(name)
    return models.NONLIN()[name].system()


def configs(grid):
    powers = np.linspace(.1, 1., num=10) if grid['powers'] == 'linspace' else grid['powers']
    return list(itertools.product(grid['seeds'], grid['trans'], [float(p) if grid['powers'] == 'linspace' else p for p in powers],
                                  grid['damps']))


_CACHE = {}


def records(case, cfg, K):
    """What a run of this configuration must log: [{quantity: (rmse, nll)}] and the trajectory of its seed."""
    key = (case['variant'], case['model'], case['N'], cfg, K)
    if key in _CACHE:
        return _CACHE[key]
    from ExpectationPropagation.Iterations import ep_fwd_back_updates
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    from MomentMatching import TaylorTransform, UnscentedTransform
    from MomentMatching.Estimator import Estimator
    seed, trans, power, damping = cfg
    s = system(case['model'])
    keep = np.random.get_state()
    np.random.seed(seed)
    data = s.simulate(case['N'])
    np.random.set_state(keep)
    xs, ys = zip(*data)
    n = s.system_dim
    if trans == 'TT':
        tm, mm = TaylorTransform(dim=n), TaylorTransform(dim=n)
    else:
        tm = UnscentedTransform(dim=n, alpha=1, beta=2, kappa=3)
        mm = UnscentedTransform(dim=n, alpha=1, beta=2, kappa=2)
    est = Estimator(trans_map=tm, meas_map=mm, trans_noise=s.transition_noise.cov, meas_noise=s.measurement_noise.cov,
                    power=power, damping=damping)
    nodes = node_system(nodes=node_estimator(nodes=build_nodes(N=case['N'], dim=n), estimator=est), system_model=s, measurements=ys)
    w = c23.World.__new__(c23.World)
    w.case, w.n, w.xs = {'logger': 'bearings' if case['variant'] == 'bearings' else 'plain'}, n, xs
    rows = []
    for _ in range(K):
        ep_fwd_back_updates(nodes)
        rows.append(w.metrics([(np.array(v.marginal.mean), np.array(v.marginal.cov)) for v in nodes]))
    _CACHE[key] = rows, data
    return rows, data


def quantities(case):
    return ['position', 'velocity', 'angle'] if case['variant'] == 'bearings' else ['all']


def sentinel(case, j, i):
    """a stored result that no run produces: by default both numbers, else one of them beside a perfect or undefined one"""
    return {'neg': (-100. - j, -200. - i), 'zero': (0., -1e9 - 10 * j - i), 'null': (None, -1e9 - 10 * j - i),
            'nonll': (-100. - 10 * j - i, None), 'inf': (float('inf'), -1e9 - 10 * j - i)}[case.get('marks', 'neg')]


def is_sentinel(v):
    return v is not None and None in v or v is not None and (v[0] <= -100 or v[1] <= -1e9)


def setup(case, path, grid, states, K, table='T', dyn='D'):
    """A store in which configuration j is in state states[j]; returns the connection and the stored rows {key: rows}."""
    from Utils import Database as U
    M = module(case['variant'])
    con = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
    con.execute('PRAGMA synchronous=OFF')
    db = con.cursor()
    U.create_dynamics_table(db, name=dyn)
    M.create_experiment_table(db, table_name=table)
    stored = {}
    for j, (cfg, st) in enumerate(zip(configs(grid), states)):
        st = STATES[st]
        iters = {'absent': [], 'stored': range(1, K + 1), 'interrupted': range(1, K), 'longer': [K + 1],
                 'foreign': []}[st]
        for i in iters:
            for q in quantities(case):
                put(db, case, table, cfg, i, q, sentinel(case, j, i))
                stored.setdefault(cfg, {}).setdefault(float(i), {})[q] = sentinel(case, j, i)
        if st == 'foreign':                     # near misses: every column differs once
            for alt in ((cfg[0] + 100, cfg[1], cfg[2], cfg[3]), (cfg[0], 'XX', cfg[2], cfg[3]),
                        (cfg[0], cfg[1], cfg[2] + 1e-12, cfg[3]), (cfg[0], cfg[1], cfg[2], cfg[3] - 1e-12)):
                for q in quantities(case):
                    put(db, case, table, alt, K, q, sentinel(case, j, 77))
                    stored.setdefault(alt, {}).setdefault(float(K), {})[q] = sentinel(case, j, 77)
    con.commit()
    return con, stored


def put(db, case, table, cfg, i, q, val):
    if case['variant'] == 'bearings':
        row = dict(Transform=cfg[1], Quantity=q, Seed=cfg[0], Iter=i, Power=cfg[2], Damping=cfg[3], RMSE=val[0], NLL=val[1])
    else:
        row = dict(Transform=cfg[1], Seed=cfg[0], Iter=i, Power=cfg[2], Damping=cfg[3], RMSE=val[0], NLL=val[1], Mean=[], Variance=[])
    module(case['variant']).insert_experiment_data(db, table, row) if case['variant'] == 'bearings' else \
        __import__('Utils.Database', fromlist=['x']).insert_experiment_data(db, table, row)


def contents(path, case, table='T'):
    con = sqlite3.connect(path)
    try:
        q = 'Quantity' if case['variant'] == 'bearings' else "'all'"
        rows = con.execute('SELECT Transform, Seed, Iter, Power, Damping, RMSE, NLL, %s FROM %s' % (q, table)).fetchall()
    finally:
        con.close()
    out = {}
    for tr, seed, it, p, d, r, n, qq in rows:
        slot = out.setdefault((seed, tr, p, d), {}).setdefault(it, {})
        slot[qq] = ('duplicate',) if qq in slot else (r, n)
    return out


def dynamics(path, dyn='D'):
    con = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
    try:
        return {(r[0], r[1]): (r[2], r[3]) for r in con.execute('SELECT Seed, t, X, Y FROM %s' % dyn)}
    finally:
        con.close()


def sweep(case, con, grid, K, override=False, table='T', dyn='D'):
    M = module(case['variant'])
    s = system(case['model'])
    cfg = M.Config(con=con, system=s, timesteps=case['N'], sys_dim=s.system_dim, num_iter=K, dyn_table_name=dyn, exp_table_name=table)
    powers = np.linspace(.1, 1., num=10) if grid['powers'] == 'linspace' else grid['powers']
    with contextlib.redirect_stdout(io.StringIO()):
        if override or case.get('explicit'):
            M.full_sweep(cfg, grid['seeds'], grid['trans'], powers, grid['damps'], override)
        else:
            M.full_sweep(cfg, grid['seeds'], grid['trans'], powers, grid['damps'])


def compare(rec, got, want, exact, what):
    """exact: keys whose rows must be bitwise as stored; the others are compared within rounding."""
    for cfg in sorted(set(got) | set(want), key=repr):
        g, w = got.get(cfg, {}), want.get(cfg, {})
        rec.require(set(g) == set(w), '%s: configuration %s has rows for iterations %s instead of %s' % (what, cfg, sorted(g), sorted(w)))
        for it in w:
            rec.require(set(g[it]) == set(w[it]), '%s: configuration %s iteration %s: quantities %s' % (what, cfg, it, sorted(g[it])))
            for q in w[it]:
                if w[it][q] is None:
                    ok = len(g[it][q]) == 2 and all(isinstance(v, float) and np.isfinite(v) for v in g[it][q])
                elif is_sentinel(w[it][q]):
                    ok = g[it][q] == w[it][q]
                else:
                    ok = len(g[it][q]) == 2 and c23.near(g[it][q], w[it][q])
                rec.require(ok, '%s: configuration %s iteration %s (%s) is stored as %s instead of %s%s' % (
                    what, cfg, it, q, g[it][q], w[it][q], ' (stored before the sweep)' if is_sentinel(w[it][q]) else ''))


def ran_rows(case, cfg, K, before=None, upto=None):
    rows = dict(before or {})
    for i, r in enumerate(records(case, cfg, K)[0][:K if upto is None else upto]):
        rows[float(i + 1)] = dict(r)
    return rows


def check_dynamics(rec, path, case, grid, what, dyn='D', seeds=None):
    got = dynamics(path, dyn)
    want = {}
    for seed in (grid['seeds'] if seeds is None else seeds):
        data = records(case, (seed, 'TT', 1, 1), 0)[1]
        for t, d in enumerate(data):
            want[(seed, float(t))] = d
    for k in want:
        rec.require(k in got, '%s: the trajectory of seed %s is not stored' % (what, k[0]))
        for g, w in zip(got[k], want[k]):
            rec.close(np.ravel(g), np.ravel(w), '%s: stored trajectory of seed %s at %s' % (what, k[0], k[1]))
    rec.require(set(got) == set(want), '%s: trajectories stored for %s' % (what, sorted(got)))


def run(case, rec):
    with tempfile.TemporaryDirectory(prefix='c24-', dir='.') as d:
        globals()['do_' + case['kind']](case, rec, os.path.join(d, 't.db'))
    rec.ran()
    rec.trace()
    rec.outcome(case)


def do_states(case, rec, path):
    grid, K, override = case['grid'], case['K'], case['override']
    con, stored = setup(case, path, grid, case['states'], K)
    sweep(case, con, grid, K, override)
    con.commit()
    con.close()
    want = {k: dict(v) for k, v in stored.items()}
    ran = False
    for cfg, st in zip(configs(grid), case['states']):
        if override or STATES[st] != 'stored':
            want[cfg] = ran_rows(case, cfg, K, stored.get(cfg))
            ran = True
            rec.step()
        rec.state(case['model'], cfg, st, override)
    what = 'after the sweep%s' % (' with override' if override else '')
    compare(rec, contents(path, case), want, None, what)
    check_dynamics(rec, path, case, grid, what)


def do_resume(case, rec, path):
    """Compute a subset of the configurations (with K0 iterations), then sweep over all with K: same records as from scratch."""
    grid, K = case['grid'], case['K']
    con, _ = setup(case, path, grid, [0] * 4, K)
    for cfg, f in zip(configs(grid), case['first']):
        if f:
            sweep(case, con, {'seeds': [cfg[0]], 'trans': [cfg[1]], 'powers': [cfg[2]], 'damps': [cfg[3]]}, case['K0'])
            rec.step()
    sweep(case, con, grid, K)
    con.commit()
    con.close()
    want = {}
    for cfg, f in zip(configs(grid), case['first']):
        want[cfg] = ran_rows(case, cfg, max(K, case['K0']) if f else K)
        rec.step()
        rec.state(cfg, f, case['K0'])
    compare(rec, contents(path, case), want, None, 'after resuming')
    check_dynamics(rec, path, case, grid, 'after resuming')


def do_store(case, rec, path):
    """Sweeps of another length were run into the same store before: the records are those of this sweep's own data."""
    grid, K = case['grid'], case['K']
    con, _ = setup(case, path, grid, [0] * len(configs(grid)), K)
    other = dict(case, N=case['N0'])
    want = {}
    first = dict(grid, seeds=case['before'], powers=[.9])
    sweep(other, con, first, case['K0'])
    for cfg in configs(first):
        if case['K0']:
            want[cfg] = ran_rows(other, cfg, case['K0'])
        rec.step()
    sweep(case, con, grid, K, case['override'])
    con.commit()
    con.close()
    for cfg in configs(grid):
        want[cfg] = ran_rows(case, cfg, K)
        rec.step()
    compare(rec, contents(path, case), want, None, 'after a sweep of %d steps into a store with trajectories of %d steps' % (
        case['N'], case['N0']))
    got = dynamics(path)
    for seed in grid['seeds']:
        for t, d in enumerate(records(case, (seed, 'TT', 1, 1), 0)[1]):
            rec.require((seed, float(t)) in got, 'the trajectory of seed %s is not stored at %d' % (seed, t))
            for g, w in zip(got[(seed, float(t))], d):
                rec.close(np.ravel(g), np.ravel(w), 'stored trajectory of seed %s at %s' % (seed, t))


@contextlib.contextmanager
def failing(bad, at, N, fired):
    """Make the configurations in bad (transform, power, damping) raise LinAlgError: at set-up (at=0) or when iteration
    `at` is scored."""
    from MomentMatching import TaylorTransform, UnscentedTransform
    from MomentMatching.Estimator import Estimator
    from StateModel import Gaussian
    init, nll = Estimator.__init__, Gaussian.nll
    sig = inspect.signature(init)
    now = {'bad': False, 'calls': 0}

    def new_init(self, *a, **k):
        args = sig.bind(self, *a, **k)
        args.apply_defaults()
        args = args.arguments
        tr = 'TT' if isinstance(args['trans_map'], TaylorTransform) else 'UT' if isinstance(args['trans_map'], UnscentedTransform) else 'MCT'
        cfg = (tr, args['power'], args['damping'])
        now.update(bad=cfg in bad, calls=0)
        if now['bad'] and at == 0:
            now['bad'] = False
            fired.add(cfg)
            raise LinAlgError('planned')
        now['cfg'] = cfg
        return init(self, *a, **k)

    def new_nll(self, x):
        if now['bad']:
            now['calls'] += 1
            if now['calls'] == (at - 1) * N + 1:
                fired.add(now['cfg'])
                raise LinAlgError('planned')
        return nll(self, x)
    Estimator.__init__, Gaussian.nll = new_init, new_nll
    try:
        yield
    finally:
        Estimator.__init__, Gaussian.nll = init, nll


def do_fail(case, rec, path):
    grid, K, override, at = case['grid'], case['K'], case['override'], case['at']
    cfgs = configs(grid)
    kinds = sorted(set(c[1:] for c in cfgs), key=lambda k: [c[1:] for c in cfgs].index(k))
    bad = set(k for k, b in zip(kinds, case['bad']) if b)
    for c in cfgs:
        records(case, c, K)                   # before the failures are planted
    con, stored = setup(case, path, grid, case['states'], K)
    fired = set()
    with failing(bad, at, case['N'] * (3 if case['variant'] == 'bearings' else 1), fired):
        sweep(case, con, grid, K, override)
    con.commit()
    con.close()
    want = {k: dict(v) for k, v in stored.items()}
    for cfg, st in zip(cfgs, case['states']):
        if override or STATES[st] != 'stored':
            upto = max(at - 1, 0) if cfg[1:] in bad and cfg[1:] in fired else K
            rows = ran_rows(case, cfg, K, stored.get(cfg), upto)
            if rows:
                want[cfg] = rows
            rec.step()
        rec.state(cfg, st, cfg[1:] in bad, at)
    compare(rec, contents(path, case), want, None, 'after a sweep in which %s failed' % sorted(bad))
    # and once the cause is gone, the next sweep computes exactly what is missing
    con = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
    sweep(case, con, grid, K)
    con.commit()
    con.close()
    for cfg in cfgs:
        if float(K) not in want.get(cfg, {}):
            want[cfg] = ran_rows(case, cfg, K)
            rec.step()
    compare(rec, contents(path, case), want, None, 'after resuming the failed sweep')
    check_dynamics(rec, path, case, grid, 'after resuming the failed sweep')


def do_mct(case, rec, path):
    grid, K = case['grid'], case['K']
    con, _ = setup(case, path, grid, [0] * len(configs(grid)), K)
    sweep(case, con, grid, K)
    con.commit()
    con.close()
    want = {}
    for cfg in configs(grid):
        if cfg[1] == 'MCT':
            want[cfg] = {float(i + 1): {'all': None} for i in range(K)}
        else:
            want[cfg] = ran_rows(case, cfg, K)
    compare(rec, contents(path, case), want, None, 'after a sweep with Monte Carlo')
    check_dynamics(rec, path, case, grid, 'after a sweep with Monte Carlo')
    # stored Monte-Carlo results are not drawn again
    before = contents(path, case)
    con = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
    sweep(case, con, grid, K)
    con.commit()
    con.close()
    rec.require(contents(path, case) == before, 'a sweep over stored configurations changed the store')


CLI = {'L96full': ('L96_SIM', 'L96_EXP', 50), 'UNGM': ('UNGM_SIM', 'UNGM_EXP', 100), 'BOT': ('BOT_SIM', 'BOT_EXP', 50), 'BOTT': ('BOTT_SIM', 'BOTT_EXP', 50)}


def do_cli(case, rec, path):
    """The command line: 10 powers x 2 dampings for the given seed and transform; all but a few stored beforehand."""
    dyn, table, N = CLI[case['model']]
    case = dict(case, N=N)
    seeds, trans, K = case.get('seeds', [5]), case.get('trans', ['TT']), case.get('iters', 1)
    grid = {'seeds': seeds, 'trans': trans, 'powers': 'linspace', 'damps': [1.0, .8]}
    cfgs = configs(grid)
    states = [0 if j in case['missing'] else 1 for j in range(len(cfgs))]
    args = []
    if case.get('defaults'):
        home = os.path.dirname(path)                     # the default store is ../log/temp.db
        os.mkdir(os.path.join(home, 'log'))
        os.mkdir(os.path.join(home, 'run'))
        path = os.path.join(home, 'log', 'temp.db')
    else:
        args += ['-l', path]
        for x in seeds:
            args += ['-s', str(x)]
        for x in trans:
            args += ['-t', x]
        args += ['-i', str(K)]
        if case['variant'] == 'full':
            args += ['-d', case['model'].replace('full', '')]
        if case['override']:
            args.append('--override')
    con, stored = setup(case, path, grid, states, K, table, dyn)
    con.close()
    here = os.getcwd()
    if case.get('defaults'):
        os.chdir(os.path.join(home, 'run'))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            module(case['variant']).main.main(args=args, standalone_mode=False)
    finally:
        os.chdir(here)
    import gc
    gc.collect()
    want = {k: dict(v) for k, v in stored.items()}
    for j, cfg in enumerate(cfgs):
        if case['override'] or j in case['missing']:
            want[cfg] = ran_rows(case, cfg, K)
            rec.step()
        rec.state(case['variant'], case['model'], cfg, states[j])
    what = 'command line %s' % (' '.join(args[2:]) or 'without options')
    compare(rec, contents(path, case, table), want, None, what)
    if case['missing'] or case['override']:
        check_dynamics(rec, path, case, grid, what, dyn)
