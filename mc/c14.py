"""C14: every placement of up to two failing projections in the schedules of the library; a failed update must be
indistinguishable from one that was never attempted."""
import itertools

import numpy as np

from . import c15, graph, models, ref

ID = 'C14'
TITLE = 'a failed EP update is a no-op and never stops the sweep'
LEVEL = 'model_checking'
RULE = ('every (schedule, fault kind, placement of one or two faults) within the bounds, compared bitwise with the run '
        'that leaves the failed updates out; non-trivial: distinct final graph state')
ASSUMPTIONS = ['faults are injected at the three places a numerical failure can come from: the projection, the '
               'moment-matching transform and the model function',
               'recovery is judged on linear models against the exact posterior, relative tolerance 1e-4 (see C12)']

# what the projection does
PROJ = ('LinAlgError', 'LinAlgWarning', 'nan_mean', 'nan_cov', 'inf_mean', 'inf_cov', 'negative', 'indefinite', 'zero',
        'singular', 'negative_natural')
# what the transform does
MAPS = ('map_LinAlgError', 'map_LinAlgWarning', 'map_nan_mean', 'map_nan_cov', 'map_nan_cross', 'map_negative',
        'map_inf_cov')
# what the model function does
FUNC = ('func_nan', 'func_nan_point', 'func_nan_first', 'func_nan_entry', 'func_inf', 'func_LinAlgError')
# some of them only make some updates fail: a forward update has no use for the cross-covariance, an infinite measurement
# covariance just carries no information
WHERE = {'map_nan_cross': ('meas', 'back'), 'map_inf_cov': ('fwd',), 'map_negative': ('fwd', 'meas')}
SCHEDULES = ('ep_fwd_back_updates', 'ep_update', 'filter_smoother')


def schedule(name, N):
    f = [(k, i) for i in range(N) for k in ('fwd', 'meas')]
    if name == 'ep_update':
        return [(k, i) for i in range(N) for k in ('fwd', 'meas', 'back')]
    return f + [('back', i) for i in reversed(range(N))]


def sites(name, N, sweeps):
    """(sweep, kind, node) of every projection the schedule performs"""
    return [(s, k, i) for s in range(sweeps) for k, i in schedule(name, N) if not (k == 'back' and i == N - 1)]


def cases(tier):
    out = []
    q = tier == 'quick'
    fam = [('lin', '1tv', 1, 1, 'TT', 'UT'), ('lin', '2rot', 1, 1, 'UT', 'TT'), ('lin', '2cv', .5, 1, 'UT', 'UT'),
           ('lin', '2tv', 1, .5, 'TT', 'TT'), ('non', 'sin1', .5, .5, 'UT', 'UT'), ('non', 'polar2', 1, 1, 'UT', 'TT')]
    if not q:
        fam += [('lin', n, a, g, t, m) for n in ('1', '2o', '3', '3tv', '5') for a, g, t, m in
                ((1, 1, 'UT', 'TT'), (.5, 1, 'TT', 'UT'), (.8, .6, 'UT', 'UT'))]
        fam += [('non', n, a, g, 'UT', 'UT') for n in models.NONLIN() for a, g in ((1, 1), (.5, .7), (1.5, .5))]
    for f, name, a, g, tr, me in fam:
        base = {'family': f, 'model': name, 'alpha': a, 'gamma': g, 'trans': tr, 'meas': me}
        for sch in SCHEDULES:
            N = 3 if sch == 'ep_fwd_back_updates' or not q else 2
            S = sites(sch, N, 2)
            for kind in PROJ + MAPS + FUNC:
                if q and sch != 'ep_fwd_back_updates' and kind not in ('LinAlgError', 'nan_cov', 'negative', 'map_nan_mean'):
                    continue
                out.append(dict(base, schedule=sch, N=N, sweeps=2, kinds=[kind], faults=1))
            if sch != 'ep_fwd_back_updates' and q:
                continue
            pairs = [('LinAlgError', 'nan_mean'), ('indefinite', 'LinAlgWarning')] if q else \
                list(itertools.product(('LinAlgError', 'nan_mean', 'negative', 'map_nan_cov'), repeat=2))
            if q and name not in ('2rot', 'sin1'):
                pairs = pairs[:1] if name == '2cv' else []
            for kk in pairs:
                for first in range(len(S)):
                    out.append(dict(base, schedule=sch, N=N, sweeps=2, kinds=list(kk), faults=2, first=first))
        # a measurement / transition that fails every time
        for kind in ('LinAlgError', 'nan_mean', 'negative', 'func_nan', 'map_nan_cov'):
            for k in ('fwd', 'meas', 'back'):
                out.append(dict(base, schedule='ep_fwd_back_updates', N=3, sweeps=3, kinds=[kind], faults='always', op=k))
    # proper projections whose update would give an improper marginal: the same all-or-nothing, by scripted projections
    for n, a, g in [(1, .5, 1), (1, 1, 1), (2, .5, 1), (2, .25, .9)] if q else itertools.product((1, 2), (.5, .25, 1, 2.), (1, .9)):
        for kind, ans in itertools.product(graph.KINDS, ('unit', 'sharp', 'vague', 'shift')):
            out.append({'kind': 'scripted', 'dim': n, 'alpha': a, 'gamma': g, 'depth': (3 if n == 1 else 2) if q else (4 if n == 1 else 3),
                        'first': [kind, ans], 'few': True})
    return out


class Control:
    """which fault the current update meets"""

    def __init__(self):
        self.fault = None


def bad_state(kind, n):
    from StateModel import Gaussian
    nan = np.full(n, np.nan)
    I = np.eye(n)
    ind = I.copy()
    ind[-1, -1] = -.5
    return {'nan_mean': lambda: Gaussian(nan, I), 'nan_cov': lambda: Gaussian(np.zeros(n), np.full((n, n), np.nan)),
            'inf_mean': lambda: Gaussian(np.full(n, np.inf), I), 'inf_cov': lambda: Gaussian(np.zeros(n), I * np.inf),
            'negative': lambda: Gaussian(np.ones(n), -2 * I), 'indefinite': lambda: Gaussian(np.ones(n), ind),
            'zero': lambda: Gaussian(np.ones(n), 0 * I), 'singular': lambda: Gaussian(np.ones(n), np.ones((n, n)) * (n > 1)),
            'negative_natural': lambda: Gaussian(precision_mat=-I, shift_vec=np.ones(n))}[kind]()


def raise_named(kind):
    from scipy.linalg import LinAlgWarning
    if kind.endswith('LinAlgError'):
        raise np.linalg.LinAlgError('injected')
    if kind.endswith('LinAlgWarning'):
        raise LinAlgWarning('injected')


def build(case, ctl):
    from MomentMatching.Estimator import Estimator
    from Systems import DynamicSystemModel
    m = (models.LIN() if case['family'] == 'lin' else models.NONLIN())[case['model']]
    spec = {'UT': ['UT', 1, 2, 1], 'TT': ['TT']}

    def faulty_map(transform):
        def call(func, state, *a, **k):
            f = ctl.fault or ''
            raise_named(f if f.startswith('map_') else '')
            mean, cov, cross = transform(func, state, *a, **k)
            mean, cov, cross = np.array(mean), np.array(cov), np.array(cross)
            if f == 'map_nan_mean':
                mean[0] = np.nan
            elif f == 'map_nan_cov':
                cov[-1, -1] = np.nan
            elif f == 'map_inf_cov':
                cov[0, 0] = np.inf
            elif f == 'map_nan_cross':
                cross[0, 0] = np.nan
            elif f == 'map_negative':
                cov = -cov - 100 * np.eye(len(cov))
            return mean, cov, cross
        return call

    class Faulty(Estimator):
        def proj_trans(self, *a, **k):
            return self.meet(super().proj_trans, a, k)

        def proj_meas(self, *a, **k):
            return self.meet(super().proj_meas, a, k)

        def proj_back(self, *a, **k):
            return self.meet(super().proj_back, a, k)

        def meet(self, proj, a, k):
            f = ctl.fault
            if f in PROJ:
                raise_named(f)
                return bad_state(f, m.n)
            return proj(*a, **k)

    est = Faulty(trans_map=faulty_map(models.make_transform(spec[case['trans']], m.n)),
                 meas_map=faulty_map(models.make_transform(spec[case['meas']], m.n)),
                 trans_noise=m.Q.copy(), meas_noise=m.R.copy(), power=case['alpha'], damping=case['gamma'])
    s = m.system()

    def faulty_func(g):
        def call(*a, **k):
            f = ctl.fault or ''
            if f.startswith('func_'):
                raise_named(f)
            out = g(*a, **k)
            if f == 'func_nan':
                return out * np.nan
            if f.startswith('func_nan_'):          # undefined at one of the points (or in one component there) only
                mask = np.ones(np.shape(out))
                mask[{'func_nan_point': -1, 'func_nan_first': 0, 'func_nan_entry': (-1,) * mask.ndim}[f]] = np.nan
                return out * mask
            if f == 'func_inf':
                return out * 0 + np.inf
            return out
        return call

    s = DynamicSystemModel(system_dim=m.n, measurement_dim=m.p, transition=faulty_func(m._trans),
                           measurement=faulty_func(m._meas), system_noise=s.system_noise,
                           measurement_noise=s.measurement_noise, init_distribution=s.init_state, dt=m.dt)
    sc = 1. if case['family'] == 'lin' else .4
    ys = [sc * models.alphabet(m.p)[i % 3] for i in range(case['N'])]
    return m, ys, models.make_nodes(m, ys, est, system=s)


def execute(case, rec, plan, omit):
    """Run the library's schedule; at the planned sites inject the fault, or (omit) leave the update out."""
    from ExpectationPropagation import Iterations
    ctl = Control()
    m, ys, nodes = build(case, ctl)
    now = {'sweep': 0}
    faulted = []

    def hook(i, kind, update):
        def go():
            f = plan(now['sweep'], kind, i)
            rec.step()
            if f is None:
                return update()
            if omit:
                return None
            before = graph.values(nodes)
            ctl.fault = f
            try:
                update()
            except Exception as e:
                rec.fail('%s at the %s update of node %d in sweep %d: %s reached the caller: %s'
                         % (f, kind, i + 1, now['sweep'] + 1, type(e).__name__, e))
            finally:
                ctl.fault = None
            after = graph.values(nodes)
            faulted.append((now['sweep'], kind, i))
            for j, (b, a) in enumerate(zip(before, after)):
                for name, x, y in zip(graph.NAMES, b, a):
                    if not graph.unchanged(x, y):
                        rec.fail('%s at the %s update of node %d in sweep %d changed %s of node %d from %s to %s'
                                 % (f, kind, i + 1, now['sweep'] + 1, name, j + 1, x, y))
        return go

    for i, node in enumerate(nodes):
        for kind in graph.KINDS:
            setattr(node, kind + '_update', hook(i, kind, getattr(node, kind + '_update')))
    for s in range(case['sweeps']):
        now['sweep'] = s
        try:
            if case['schedule'] == 'filter_smoother':
                Iterations.kalman_filter(nodes)
                Iterations.kalman_smoother(nodes)
            else:
                getattr(Iterations, case['schedule'])(nodes)
        except Exception as e:
            if type(e).__name__ == 'Violation':
                raise
            rec.fail('%s escaped from %s: %s' % (type(e).__name__, case['schedule'], e))
    final = graph.values(nodes)
    now['sweep'] = 10 ** 6
    Iterations.ep_fwd_back_updates(nodes)                 # one clean sweep
    if len(faulted) == 0 and not omit:
        rec.count('runs_without_fault')
    return m, ys, final, nodes


def compare(case, rec, plan, what):
    m, ys, got, nodes = execute(case, rec, plan, False)
    _, _, want, other = execute(case, rec, plan, True)
    for stage, g, w in (('', got, want), (' after one more sweep', graph.values(nodes), graph.values(other))):
        for i, (a, b) in enumerate(zip(g, w)):
            for name, x, y in zip(graph.NAMES, a, b):
                if not (graph.unchanged(x, y) or (np.all(np.isfinite(x[0])) and not graph.differs(x, y, 1e-10))):
                    rec.fail('%s: %s of node %d%s is %s; without attempting the failed updates it is %s'
                             % (what, name, i + 1, stage, x, y))
    if case['family'] == 'lin' and case['gamma'] == 1:
        _, exact, _ = ref.joint_posteriors(m.steps(len(ys)), m.m0, m.P0, ys)
        for i, (n, (mean, cov)) in enumerate(zip(nodes, exact)):
            rec.gauss(n.marginal, mean, cov, '%s: node %d after one clean sweep' % (what, i + 1), rtol=1e-4)
    rec.ran()
    rec.trace()
    rec.state(case['model'], case['alpha'], case['schedule'], graph.coarse(got))
    rec.outcome(case['model'], case['alpha'], case['schedule'], graph.coarse(got))


def run(case, rec):
    if case.get('kind') == 'scripted':
        return c15.scripted(case, rec)
    S = sites(case['schedule'], case['N'], case['sweeps'])
    if case['faults'] == 'always':
        for i in range(case['N']):
            if case['op'] == 'back' and i == case['N'] - 1:
                continue
            if 'sites' in case and i not in case['sites']:
                continue
            compare(dict(case, sites=[i]), rec, lambda s, k, j, i=i: case['kinds'][0] if k == case['op'] and j == i and s < 100
                    else None, '%s at every %s update of node %d' % (case['kinds'][0], case['op'], i + 1))
        return
    if case['faults'] == 1:
        combos = [(s,) for s in S if s[1] in WHERE.get(case['kinds'][0], graph.KINDS)]
    else:
        combos = [(S[case['first']], t) for t in S[case['first'] + 1:]]
    for combo in combos:
        table = dict(zip(combo, case['kinds']))
        compare(case, rec, lambda s, k, i: table.get((s, k, i)),
                '%s with %s at (sweep, update, node) %s' % (case['schedule'], case['kinds'], list(combo)))
