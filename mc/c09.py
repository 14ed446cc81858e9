"""C09: EP on linear-Gaussian models, for every power, on every measurement sequence over a finite alphabet."""
import itertools

import numpy as np

from . import c07, models, ref

ID = 'C09'
TITLE = 'one EP sweep is exact on linear models'
LEVEL = 'exploration'
RULE = ('every (model, transforms, power, per-node arguments, measurement sequence up to the length bound), checked '
        'after the forward pass and after each of several sweeps; non-trivial: distinct posterior of the first state')
ASSUMPTIONS = ['exact answers by conditioning the joint Gaussian of all states; the code starts from marginals of '
               'variance 1e10 instead of infinity, hence relative tolerance 2e-6 in units of standard deviations']

TRS = [['TT'], ['UT', 1, 2, 1], ['UT', .5, 0, 2]]
POWERS = [1, .5, .02, .75, 1.5, .1, .9, .2, .01]


def cases(tier):
    out = []
    for name, m in models.LIN().items():
        top = {1: 4, 2: 3}.get(m.n, 2) if tier == 'quick' else {1: 6, 2: 5}.get(m.n, 4)
        for a in POWERS if tier != 'quick' else POWERS[:5]:
            for k, tr in enumerate(TRS):
                for farg in (False, True):
                    for N in range(1, top + 1):
                        if tier == 'quick' and (k + farg + N + POWERS.index(a)) % 2 and N == top:
                            continue
                        c = {'kind': 'sweep', 'model': name, 'trans': tr, 'meas': TRS[(k + POWERS.index(a)) % 3],
                             'alpha': a, 'farg': farg, 'N': N, 'symbols': 2 if N >= 3 and tier == 'quick' else 3}
                        out.append(c)
        for a in (1, .5):
            for N in (1, 2, 3):
                out.append({'kind': 'node_by_node', 'model': name, 'trans': ['UT', 1, 2, 1], 'meas': ['TT'], 'alpha': a,
                            'farg': False, 'N': N, 'symbols': 2})
        out.append({'kind': 'long', 'model': name, 'alpha': .7, 'N': 12 if tier == 'quick' else 40,
                    'trans': ['UT', 1, 2, 1], 'meas': ['UT', 1, 2, 3], 'farg': False})
    for name in models.LONG():
        out.append({'kind': 'long', 'model': name, 'alpha': .7, 'N': 40, 'trans': ['UT', 1, 2, 1], 'meas': ['UT', 1, 2, 3], 'farg': False})
    return out


def setup(case, m, ys):
    N = len(ys)
    if case['farg']:
        times = [.5 + 1.25 * i for i in range(N)]
        us = [(-1.) ** i * (1 + .5 * i) for i in range(N)]
        farg = [{'t': t, 'u': u} for t, u in zip(times, us)]
        steps = m.steps(N, times=times, us=us)
    else:
        farg = None
        steps = m.steps(N)
    est = models.make_estimator(m, case['trans'], case['meas'], m.n, alpha=case['alpha'])
    nodes = models.make_nodes(m, ys, est, farg_list=farg)
    return nodes, steps


def compare(rec, nodes, want, what, rtol=2e-6):
    for i, (node, w) in enumerate(zip(nodes, want)):
        rec.gauss(node.marginal, w[0], w[1], '%s: marginal of node %d of %d' % (what, i + 1, len(nodes)), rtol=rtol, atol=1e-8)


def run(case, rec):
    from ExpectationPropagation import Iterations
    m = models.find(case['model'])
    alpha = models.data(m, 4)
    N = case['N']
    seqs = [tuple((3 * i * i + i) % 3 for i in range(N))] if case['kind'] == 'long' else \
        itertools.chain(itertools.product(range(case['symbols']), repeat=N), [] if case['farg'] else c07.zeros(N))
    for idx in seqs:
        raw = [alpha[i] for i in idx]
        if idx == (3,) * N and case['alpha'] in (.5, .02):
            raw = models.expected(m, N)                   # exactly what the model predicts: the means stay
        ys = [raw[j].copy() if j % 2 else raw[j][None, :].copy() for j in range(N)]
        nodes, steps = setup(case, m, ys)
        filt, smooth, _ = ref.joint_posteriors(steps, m.m0, m.P0, raw)
        what = 'model %s, %s/%s, alpha=%s, y=%s%s' % (case['model'], case['trans'], case['meas'], case['alpha'], list(idx),
                                                      ', given arguments' if case['farg'] else '')
        if case['kind'] == 'node_by_node':
            for _ in range(N):
                Iterations.ep_update(nodes)
            compare(rec, nodes, smooth, what + ', %d node-by-node passes' % N)
            Iterations.ep_update(nodes)
            compare(rec, nodes, smooth, what + ', %d node-by-node passes' % (N + 1))
        else:
            Iterations.kalman_filter(nodes)
            compare(rec, nodes, filt, what + ', forward pass')
            Iterations.kalman_smoother(nodes)
            compare(rec, nodes, smooth, what + ', forward and backward pass')
            nodes, _ = setup(case, m, ys)
            for s in range(3):
                Iterations.ep_fwd_back_updates(nodes)
                compare(rec, nodes, smooth, what + ', sweep %d' % (s + 1))
        rec.ran()
        rec.trace()
        rec.outcome(case['model'], case['farg'], *smooth[0])
