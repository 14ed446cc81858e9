"""C12: every graph state reachable by undamped updates on a linear model; one sweep from each must be exact."""
import numpy as np

from . import graph, models, ref

ID = 'C12'
TITLE = 'one sweep restores the exact posterior from any update history'
LEVEL = 'model_checking'
RULE = ('breadth-first search of all states reachable by undamped single-node updates (to the fixpoint when it is '
        'reached within the depth bound), one full sweep from each; non-trivial: distinct graph state')
ASSUMPTIONS = ['states are merged when all natural parameters agree to 5 digits',
               'exact answers by conditioning the joint Gaussian; relative tolerance 1e-4 in units of standard deviations (covariances of 1e10 stand for infinity, so messages computed from vacuous states carry relative rounding errors of 1e-5)']


def cases(tier):
    out = []
    q = tier == 'quick'
    for name in ('1', '1tv', '2rot', '2tv', '2cv') + (('3', '2o') if q else ('2o', '2sing', '3', '3tv', '4', '5')):
        for a in (1, .5, .8) if q else (1, .5, .8, .1, 1.5):
            for tr, me in ((['UT', 1, 2, 1], ['TT']), (['TT'], ['UT', 1, 2, 3])):
                for N, depth in (((1, 20), (2, 20), (3, 6)) if q else ((1, 20), (2, 20), (3, 9), (4, 6))):
                    if q and tr == ['TT'] and N == 3:
                        continue
                    out.append({'model': name, 'alpha': a, 'trans': tr, 'meas': me, 'N': N, 'depth': depth})
    # measurements of exactly zero, or exactly as predicted: the means stay where they are
    for name in ('1', '2cv', '2o', '2tv'):
        for data in ('zero', 'expected'):
            for a in (1, .5):
                for N, depth in (((2, 20), (3, 3)) if q else ((2, 20), (3, 8), (4, 4))):
                    if q and name == '2cv' and N == 3:
                        continue
                    out.append({'model': name, 'alpha': a, 'trans': ['UT', 1, 2, 1], 'meas': ['TT'], 'N': N, 'depth': depth, 'data': data})
    # on small scales start after a forward pass: next to 1e-5 the variance 1e10 of the start is not even roughly infinite
    for name in ('1small', '2small'):
        for a in (1, .5):
            for N, depth in (((2, 20), (3, 4)) if q else ((2, 20), (3, 8))):
                out.append({'model': name, 'alpha': a, 'trans': ['UT', 1, 2, 1], 'meas': ['TT'], 'N': N, 'depth': depth,
                            'warm': 1})
    return out


def run(case, rec):
    from ExpectationPropagation import Iterations
    m = models.LIN()[case['model']]
    N = case['N']
    ys = [models.data(m)[i % 3] for i in range(N)]
    if case.get('data'):
        ys = models.expected(m, N) if case['data'] == 'expected' else [np.zeros(m.p)] * N
    est = models.make_estimator(m, case['trans'], case['meas'], m.n, alpha=case['alpha'])
    nodes = models.make_nodes(m, ys, est)
    _, want, _ = ref.joint_posteriors(m.steps(N), m.m0, m.P0, ys)
    if case.get('warm'):
        Iterations.kalman_filter(nodes)
    if 'path' in case:
        for p in case['path']:
            graph.apply(nodes, p)
            proper(rec, nodes, case, case['path'])
        Iterations.ep_fwd_back_updates(nodes)
        return exact(rec, nodes, want, case, case['path'])
    ops = graph.ops(N)
    vals = graph.values(nodes)
    tag = (case['model'], case['alpha'], case['trans'][0], N)
    rec.state(tag, graph.coarse(vals))
    frontier = [(nodes, [])]
    depth = 0
    while frontier and depth < case['depth']:
        nxt = []
        for nodes, path in frontier:
            for op in ops:
                c = graph.clone(nodes)
                graph.apply(c, op)
                rec.step()
                p = path + [list(op)]
                v = graph.values(c)
                if rec.state(tag, graph.coarse(v)):
                    rec.outcome(tag, graph.coarse(v))
                    proper(rec, c, case, p)
                    s = graph.clone(c)
                    Iterations.ep_fwd_back_updates(s)
                    exact(rec, s, want, case, p)
                    rec.ran()
                    rec.trace()
                    nxt.append((c, p))
        frontier = nxt
        depth += 1
    if frontier:
        rec.count('searches_stopped_at_depth_bound')
    else:
        rec.count('searches_to_fixpoint')


def proper(rec, nodes, case, path):
    for i, n in enumerate(nodes):
        C, L = np.array(n.marginal.cov), np.array(n.marginal.precision)
        ok = np.all(np.isfinite(n.marginal.mean)) and np.all(np.isfinite(C)) and np.linalg.eigvalsh((C + C.T) / 2)[0] > 0 \
            and np.linalg.eigvalsh((L + L.T) / 2)[0] > 0
        rec.require(ok, 'marginal of node %d is improper after %s (model %s, alpha %s)' % (i + 1, path, case['model'], case['alpha']),
                    case=dict(case, path=path))


def exact(rec, nodes, want, case, path):
    for i, (n, w) in enumerate(zip(nodes, want)):
        rec.gauss(n.marginal, w[0], w[1], 'model %s, alpha %s, N=%d: node %d after the updates %s and one sweep'
                  % (case['model'], case['alpha'], len(nodes), i + 1, path), rtol=1e-4, case=dict(case, path=path))
