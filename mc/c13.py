"""C13: damped Power EP on linear and nonlinear models against an independent natural-parameter implementation, and
convergence of damped EP on linear models."""
import itertools

import numpy as np

from . import graph, models, ref

ID = 'C13'
TITLE = 'EP iterations follow the damped Power-EP equations'
LEVEL = 'model_checking'
RULE = ('every (model, transforms, alpha, gamma, measurement sequence) of the grid: the graph after every single update '
        'of several sweeps equals the reference state; every (alpha, gamma) converges on linear models; non-trivial: '
        'distinct graph state')
ASSUMPTIONS = ['comparison stops (and is counted) when the reference leaves the positive definite cone or comes within '
               '1e-6 of its boundary, where rounding decides which side the code takes',
               'the code starts from variance 1e10; relative tolerance 1e-5 in units of standard deviations']

ALPHAS = [1, .5, .25, .8, 1.5]
GAMMAS = [1, .5, .9, .2]
EXTREME = [(.02, 1), (.1, .5), (1, 1.5), (.5, 1.3), (.02, 1.2), (3, 1), (1, .01)]
PAIRS = [[['UT', 1, 2, 1], ['UT', 1, 2, 2]], [['TT'], ['TT']], [['TT'], ['UT', 1, 2, 1]], [['UT', .5, 2, 2], ['TT']]]


def models_ops(N):
    return [list(o) for o in graph.ops(N) if o != ('back', N - 1)]


def cases(tier):
    out = []
    q = tier == 'quick'
    fam = [('non', n) for n in models.NONLIN()] + [('lin', n) for n in ('1tv', '2rot', '2tv', '3', '2o')]
    for f, name in fam:
        for i, (a, g) in enumerate(itertools.product(ALPHAS, GAMMAS)):
            for k, pair in enumerate(PAIRS):
                if q and (i + k) % 2:
                    continue
                for N in ((2, 3) if q else (1, 2, 3, 5)):
                    out.append({'kind': 'follow', 'family': f, 'model': name, 'pair': pair, 'alpha': a, 'gamma': g, 'N': N,
                                'sweeps': 3 if q else 6, 'seqs': 1 if q else 3, 'farg': bool(i % 3 == 0)})
        for i, (a, g) in enumerate([(1, 1), (.5, .6), (1, .4)]):          # measurements of exactly zero
            out.append({'kind': 'follow', 'family': f, 'model': name, 'pair': PAIRS[i], 'alpha': a, 'gamma': g, 'N': 3,
                        'sweeps': 3, 'seqs': 1, 'farg': False, 'zero': True})
        for i, (a, g) in enumerate(EXTREME):
            for k, pair in enumerate(PAIRS):
                if f == 'lin' or (i + k) % 2 == 0:
                    out.append({'kind': 'follow', 'family': f, 'model': name, 'pair': pair, 'alpha': a, 'gamma': g, 'N': 3,
                                'sweeps': 2 if q else 5, 'seqs': 1, 'farg': False})
        # every schedule of single updates, not only sweeps: repeated, out of order, from fresh and from warm graphs
        for i, (a, g) in enumerate([(1, 1), (1, .5), (.5, 1), (.5, .4), (.8, 1.2)]):
            if q and f == 'non' and name not in ('sin1', 'pend2', 'polar2'):
                continue
            for warm, N in ((0, 2), (1, 2), (1, 3)):
                for k in (i % 4, (i + 1) % 4) if q else range(4):
                    for op in models_ops(N):
                        out.append({'kind': 'schedules', 'family': f, 'model': name, 'pair': PAIRS[k], 'alpha': a, 'gamma': g,
                                    'N': N, 'warm': warm, 'first': op, 'depth': 6 - N if q else 7 - N})
    for name in ('1', '1tv', '2rot', '2cv', '3') if q else models.LIN():
        for a, g in itertools.product(ALPHAS[:4], [1, .5, .9, .3]):
            out.append({'kind': 'converge', 'model': name, 'alpha': a, 'gamma': g, 'N': 2 if q else 4})
    for name in ('UNGM', 'BOT', 'BOTT', 'L96'):
        for a, g in ((1, 1), (.5, 1), (1, .5), (.7, .8)):
            for pair in PAIRS[:2]:
                out.append({'kind': 'bench', 'model': name, 'pair': pair, 'alpha': a, 'gamma': g, 'N': 4 if q else 10,
                            'sweeps': 2 if q else 5, 'seed': 3})
    return out


def run(case, rec):
    return globals()[case['kind']](case, rec)


def follow(case, rec):
    m = (models.LIN() if case['family'] == 'lin' else models.NONLIN())[case['model']]
    sc = 1. if case['family'] == 'lin' else .4
    N = case['N']
    for s in range(case['seqs']):
        ys = [sc * models.letters(m, 4)[3 if case.get('zero') else (i + s) % 3] for i in range(N)]
        farg = times = us = None
        if case['farg']:
            times, us = [.3 + .7 * i for i in range(N)], [.2 * (-1) ** i for i in range(N)]
            farg = [{'t': t, 'u': u} for t, u in zip(times, us)]
        est = models.make_estimator(m, case['pair'][0], case['pair'][1], m.n, alpha=case['alpha'], gamma=case['gamma'])
        nodes = models.make_nodes(m, [y.copy() for y in ys], est, farg_list=farg)
        r = ref.RefEP(m, ys, case['pair'][0], case['pair'][1], case['alpha'], case['gamma'], times, us)
        compare_run(case, rec, m, nodes, r, 1e-5)


def margin(r):
    """how far the reference is from the boundary of the positive definite cone, relative"""
    w = 1.
    for q in r.q:
        e = np.linalg.eigvalsh(q.L)
        w = min(w, e[0] / max(abs(e[-1]), 1e-300))
    return w


def compare_run(case, rec, m, nodes, r, rtol):
    what = '%s, %s, alpha=%s, gamma=%s' % (case['model'], case['pair'], case['alpha'], case['gamma'])
    N = len(nodes)
    for sweep in range(case['sweeps']):
        for phase in [(k, i) for i in range(N) for k in ('fwd', 'meas')] + [('back', i) for i in reversed(range(N))]:
            if not follow_update(rec, nodes, r, phase, what, 'sweep %d' % (sweep + 1), rtol, (sweep, phase)):
                return
        rec.trace()
    rec.ran()


def follow_update(rec, nodes, r, phase, what, when, rtol, key, replay=None):
    """one update of the graph and of the reference, compared; False when the reference has no usable answer"""
    try:
        ok = {'fwd': r.fwd, 'meas': r.mea, 'back': r.back}[phase[0]](phase[1])
    except np.linalg.LinAlgError:
        rec.count('reference_failed')
        return False
    if ok is False or margin(r) < 1e-6:
        rec.count('reference_improper')
        return False
    graph.apply(nodes, phase)
    rec.step()
    i = phase[1]
    label = '%s: after %s update of node %d in %s: ' % (what, phase[0], i + 1, when)
    mean, cov = r.q[i].moment()
    top = np.max(np.abs(cov))
    if top > 1e6:
        rec.count('reference_diverged')
        return False
    kw = {'case': replay} if replay else {}
    rec.gauss(nodes[i].marginal, mean, cov, label + 'marginal', rtol=max(rtol, 30e-10 * top), **kw)
    F = {'fwd': (r.F, 'forward_factor'), 'meas': (r.M, 'measurement_factor'), 'back': (r.B, 'back_factor')}[phase[0]]
    want, got = F[0][i], getattr(nodes[i], F[1])
    s = max(np.max(np.abs(want.L)), 1e-3 * np.max(np.abs(r.q[i].L)))
    rec.close(got.precision, want.L, label + 'precision of the message', rtol=20 * max(rtol, 30e-10 * top), scale=s, **kw)
    rec.close(got.shift, want.e, label + 'shift of the message', rtol=20 * max(rtol, 30e-10 * top),
              scale=max(np.max(np.abs(want.e)), s * (1 + np.max(np.abs(mean)))), **kw)
    if rec.state(what, key, want.L, want.e):
        rec.outcome(what, want.L, want.e)
    return True


def schedules(case, rec):
    """depth-first search over all schedules of single-node updates, every prefix compared"""
    m = (models.LIN() if case['family'] == 'lin' else models.NONLIN())[case['model']]
    ys = [(1. if case['family'] == 'lin' else .4) * models.letters(m)[i % 3] for i in range(case['N'])]
    est = models.make_estimator(m, case['pair'][0], case['pair'][1], m.n, alpha=case['alpha'], gamma=case['gamma'])
    nodes = models.make_nodes(m, [y.copy() for y in ys], est)
    r = ref.RefEP(m, ys, case['pair'][0], case['pair'][1], case['alpha'], case['gamma'])
    what = '%s, %s, alpha=%s, gamma=%s' % (case['model'], case['pair'], case['alpha'], case['gamma'])
    N = case['N']
    if case['warm']:      # one forward pass, so that every update has something to say
        for phase in [(k, i) for i in range(N) for k in ('fwd', 'meas')]:
            if not follow_update(rec, nodes, r, phase, what, 'the first forward pass', 1e-5, ('warm', phase)):
                return

    def extend(nodes, r, path, op):
        path = path + [list(op)]
        kind, i = op
        if kind != 'fwd' and np.linalg.eigvalsh(r.q[i].L)[0] < 1e-4:
            return rec.count('still_vague')           # 16 digits of a variance of 1e10 leave none to compare
        c, q = graph.clone(nodes), ref_copy(r)
        if not follow_update(rec, c, q, tuple(op), what, 'schedule %s' % path, 1e-5, path, dict(case, path=path)):
            return
        rec.ran()
        if len(path) == case['depth']:
            return rec.trace()
        for nxt in [case['path'][len(path)]] if 'path' in case and len(path) < len(case['path']) else models_ops(N):
            extend(c, q, path, nxt)

    extend(nodes, r, [], case['first'])


def ref_copy(r):
    c = object.__new__(type(r))
    c.__dict__.update(r.__dict__)
    c.F, c.M, c.B, c.q = list(r.F), list(r.M), list(r.B), list(r.q)
    return c


def bench(case, rec):
    s = models.bench(case['model'])
    m = models.as_model(models.bench(case['model']))
    np.random.seed(case['seed'])
    ys = [np.ravel(y) for _, y in s.simulate(case['N'])]
    est = models.make_estimator(s, case['pair'][0], case['pair'][1], m.n, alpha=case['alpha'], gamma=case['gamma'])
    nodes = models.make_nodes(m, ys, est, system=s)
    r = ref.RefEP(m, ys, case['pair'][0], case['pair'][1], case['alpha'], case['gamma'])
    compare_run(case, rec, m, nodes, r, 1e-4)


def converge(case, rec):
    """damped sweeps on linear models: the distance to the exact posterior shrinks to rounding level"""
    from ExpectationPropagation import Iterations
    m = models.LIN()[case['model']]
    N, a, g = case['N'], case['alpha'], case['gamma']
    ys = [models.letters(m)[i % 3] for i in range(N)]
    est = models.make_estimator(m, ['UT', 1, 2, 1], ['TT'], m.n, alpha=a, gamma=g)
    nodes = models.make_nodes(m, ys, est)
    _, want, _ = ref.joint_posteriors(m.steps(N), m.m0, m.P0, ys)
    sweeps = 60 if g >= .5 else 140
    for k in range(sweeps):
        Iterations.ep_fwd_back_updates(nodes)
        rec.step(5 * N)
        rec.state('converge', case['model'], a, g, k)
        d = max(float(np.max(np.abs(n.marginal.mean - w[0]) / (np.sqrt(np.diag(w[1])) + np.abs(w[0]))))
                for n, w in zip(nodes, want))
        d = max(d, max(float(np.max(np.abs(n.marginal.cov - w[1])) / np.max(np.abs(w[1]))) for n, w in zip(nodes, want)))
        if d < 2e-7:
            break
    for i, (n, w) in enumerate(zip(nodes, want)):
        rec.gauss(n.marginal, w[0], w[1], 'model %s, alpha=%s, gamma=%s: node %d after %d damped sweeps'
                  % (case['model'], a, g, i + 1, k + 1), rtol=1e-5)
    rec.ran()
    rec.trace()
    rec.outcome('converge', case['model'], a, g, k)
