"""C16: every small graph that can be built, every order of attaching estimators and systems."""
import copy
import itertools

import numpy as np

from . import graph, models

ID = 'C16'
TITLE = 'graph construction wires every node to its neighbours, data, time and model'
LEVEL = 'exploration'
RULE = ('every (number of steps, model, measurement container, time arguments) of the grid is built and inspected; every '
        'order of up to three attachments is compared with attaching the last ones to a fresh graph; every single update '
        'on one graph is checked against all others; non-trivial: distinct (configuration, graph values)')
ASSUMPTIONS = ['two sweeps tell graphs with different wiring apart (all models, times and measurements are distinct)']

SPECS = {'A': ('TT', 1, 1), 'B': ('UT', .5, .7), 'C': ('UT', 1, .5)}


def cases(tier):
    out = []
    q = tier == 'quick'
    Ns = (1, 2, 3, 4, 5, 7, 12) if q else range(1, 21)
    for N in Ns:
        for fam, name in (('lin', '1tv'), ('lin', '2tv'), ('lin', '3tv'), ('lin', '2o'), ('non', 'sin1'), ('non', 'pend2'), ('non', 'lv3')):
            for container in ('list', 'rows', 'array', 'tuple'):
                for args in ('default', 'given'):
                    out.append({'kind': 'wiring', 'N': N, 'family': fam, 'model': name, 'container': container, 'args': args})
    for N in (1, 2, 3) if q else (1, 2, 3, 5, 8):
        for order in orders():
            out.append({'kind': 'attach', 'N': N, 'order': order})
    for N in (1, 2, 3) if q else (1, 2, 3, 4):
        for name in ('1tv', '2rot', '3'):
            out.append({'kind': 'independent', 'N': N, 'model': name, 'depth': 1 if q else 2})
    for N in Ns:
        for dim in range(1, 6):
            out.append({'kind': 'bare', 'N': N, 'dim': dim})
    for dim in range(1, 6):
        out.append({'kind': 'initial', 'dim': dim})
    for N in (1, 2, 3) if q else (1, 2, 3, 4):
        out.append({'kind': 'arguments', 'N': N})
    return out


def orders():
    """every sequence of at most three attachments over {estimator A/B, system 1/2, both at build time} that ends up
    with at least one estimator and one system"""
    letters = ['eA', 'eB', 'eC', 's1', 's2']
    out = []
    for first in ('none', 'bA', 'bA1', 'b1'):
        for n in range(0, 4):
            for seq in itertools.product(letters, repeat=n):
                full = [first] + list(seq)
                if has(full, 'e') and has(full, 's') and (n < 3 or first == 'none' and len(set(seq)) == 3):
                    out.append(full)
    return out


def has(full, what):
    digits = ''.join(full)
    return any(c in digits for c in ('ABC' if what == 'e' else '12'))


def run(case, rec):
    return globals()[case['kind']](case, rec)


def get(fam, name):
    return (models.LIN() if fam == 'lin' else models.NONLIN())[name]


def data(m, N):
    return [np.array([.7 * np.sin(1. + 3.7 * i + 1.3 * j) for j in range(m.p)]) for i in range(N)]


def bare(case, rec):
    from ExpectationPropagation.Nodes import build_nodes
    N, n = case['N'], case['dim']
    nodes = build_nodes(N=N, dim=n)
    check_chain(rec, nodes, N, n)
    rec.ran()
    rec.outcome(N, n)


ARGS = ({}, {'t': 0.}, {'t': 2.5}, {'u': 0.}, {'u': -1.5}, {'t': -1., 'u': 3.}, {'gain': 2.}, {'gain': 3., 't': 1.})


def arguments(case, rec):
    """every sequence of argument sets: each node's transition gets its own set, nothing more, and the sets are not touched"""
    from ExpectationPropagation.Nodes import build_nodes, node_system
    from StateModel import Gaussian
    from Systems import DynamicSystemModel, GaussianNoise
    N = case['N']

    def f(x, t=17., u=.25, gain=1.):
        return gain * x + 100. * t + 10. * u

    def h(x, t=None, u=None):
        return x

    s = DynamicSystemModel(1, 1, f, h, GaussianNoise(1, np.eye(1)), GaussianNoise(1, np.eye(1)),
                           Gaussian(np.zeros(1), np.eye(1)), dt=1 / 7)
    x = np.array([[.7]])
    for idx in itertools.product(range(len(ARGS)), repeat=N):
        for shared in ((False, True) if len(set(idx)) == 1 else (False,)):
            args = [dict(ARGS[i]) for i in idx] if not shared else [dict(ARGS[idx[0]])] * N
            nodes = node_system(build_nodes(N, 1), s, [np.zeros(1)] * N, args if not sum(idx) % 2 else tuple(args))
            what = 'arguments %s' % ([ARGS[i] for i in idx],)
            for again in (0, 1):
                for nd, i in zip(nodes, idx):
                    rec.close(nd.trans_func(x), f(x, **ARGS[i]), '%s: transition of node %d' % (what, nd.index + 1))
                rec.require(args == [ARGS[i] for i in idx], '%s were changed into %s' % (what, args))
            rec.ran()
            rec.outcome(idx, shared)


def initial(case, rec):
    """a node takes given initial messages (measurement, backward, forward) and marginal as they are"""
    from ExpectationPropagation.Nodes import Node
    from StateModel import Gaussian
    n = case['dim']
    made = []
    for k in range(4):
        P = (k + 1.) * np.eye(n) + .1 * k
        m = np.arange(n) - 1.5 * k
        made.append((m, P))

    def g(k):
        m, P = made[k]
        if k % 2:
            L = np.linalg.inv(P)
            return Gaussian(precision_mat=L, shift_vec=L @ m)
        return Gaussian(m.copy(), P.copy())

    for perm in itertools.permutations(range(4)):
        for with_factors, with_marginal in itertools.product((0, 1), repeat=2):
            kw = {}
            if with_factors:
                kw['factor_init'] = tuple(g(k) for k in perm[:3])
            if with_marginal:
                kw['marginal_init'] = g(perm[3])
            nd = Node(n, **kw)
            for name, k in zip(('measurement_factor', 'back_factor', 'forward_factor', 'marginal'), perm):
                q = getattr(nd, name)
                if with_marginal if name == 'marginal' else with_factors:
                    rec.close(q.mean, made[k][0], 'given %s: mean' % name)
                    rec.close(q.cov, made[k][1], 'given %s: covariance' % name)
                elif name == 'marginal':
                    rec.require(not np.any(q.mean) and np.linalg.eigvalsh(q.cov)[0] >= 1e9, 'the marginal is not vacuous')
                else:
                    L, e = graph.nat(q)
                    rec.require(L.shape == (n, n) and not np.any(L) and not np.any(e), name + ' is not vacuous')
            rec.ran()
            rec.outcome(n, perm, with_factors, with_marginal)


def check_chain(rec, nodes, N, n):
    rec.require(len(nodes) == N, 'build_nodes(N=%d) returned %d nodes' % (N, len(nodes)))
    rec.require(len({id(x) for x in nodes}) == N, 'the same node occurs twice')
    for i, nd in enumerate(nodes):
        rec.require(nd.prev_node is (nodes[i - 1] if i else None), 'node %d of %d: wrong previous node' % (i + 1, N))
        rec.require(nd.next_node is (nodes[i + 1] if i + 1 < N else None), 'node %d of %d: wrong next node' % (i + 1, N))
        for name in graph.NAMES[1:]:
            L, e = graph.nat(getattr(nd, name))
            rec.require(L.shape == (n, n) and e.shape == (n,), 'node %d: %s has dimension %s' % (i + 1, name, e.shape))
            rec.require(not np.any(L) and not np.any(e), 'node %d: %s is not vacuous' % (i + 1, name))
        mean, cov = np.array(nd.marginal.mean), np.array(nd.marginal.cov)
        rec.require(mean.shape == (n,) and cov.shape == (n, n), 'node %d: marginal has dimension %s' % (i + 1, mean.shape))
        rec.require(not np.any(mean) and np.linalg.eigvalsh(cov)[0] >= 1e9 and np.allclose(cov, cov.T),
                    'node %d: the initial marginal is not vacuous: mean %s, covariance %s' % (i + 1, mean, cov))


def wiring(case, rec):
    from ExpectationPropagation.Nodes import build_nodes, node_system
    m = get(case['family'], case['model'])
    N = case['N']
    ys = data(m, N)
    s = m.system()
    given = {'list': [y.copy() for y in ys], 'rows': [y[None, :].copy() for y in ys], 'array': np.array(ys),
             'tuple': tuple(y.copy() for y in ys)}[case['container']]
    farg = None
    if case['args'] == 'given':
        farg = [{'t': .37 * i * i - 1, 'u': .5 - .2 * i} for i in range(N)]
    nodes = build_nodes(N=N, dim=m.n)
    kw = {'farg_list': [dict(a) for a in farg]} if farg else {}
    nodes = node_system(nodes=nodes, system_model=s, measurements=given, **kw)
    rec.require(not farg or kw['farg_list'] == farg, 'the given arguments were changed')
    rec.require(len(given) == N and all(np.array_equal(np.ravel(a), b) for a, b in zip(given, ys)), 'the measurements were changed')
    check_chain(rec, nodes, N, m.n)
    x = np.linspace(.3, 1.1, m.n)
    for i, nd in enumerate(nodes):
        t, u = (farg[i]['t'], farg[i]['u']) if farg else (i * m.dt, 0.)
        rec.close(np.ravel(nd.trans_func(x[None, :])), m.f(x, t, u), 'node %d of %d: transition at x=%s, expected time %s'
                  % (i + 1, N, x, t), rtol=1e-9)
        rec.close(np.ravel(nd.meas_func(x[None, :])), m.h(x), 'node %d: measurement function at %s' % (i + 1, x), rtol=1e-9)
        rec.close(np.ravel(nd.meas), ys[i], 'node %d of %d: its measurement' % (i + 1, N), rtol=0, atol=0)
        rec.require(np.ndim(nd.meas) <= 1, 'node %d: measurement has shape %s' % (i + 1, np.shape(nd.meas)))
        p = getattr(nd, 'prior', None)
        if i:
            rec.require(p is None, 'node %d carries a prior' % (i + 1))
        else:
            rec.close(p.mean, m.m0, 'prior mean', rtol=0, atol=0)
            rec.close(p.cov, m.P0, 'prior covariance', rtol=0, atol=0)
    rec.ran()
    rec.step(N)
    rec.outcome(case)
    rec.state(case['model'], N, case['args'])




def attach(case, rec):
    from ExpectationPropagation import Iterations
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    N = case['N']
    order = case['order']

    def make(k):
        t, a, g = SPECS[k]
        m = models.LIN()['2tv']
        e = models.make_estimator(m, ['TT'] if t == 'TT' else ['UT', 1, 2, 1], ['TT'], 2, alpha=a, gamma=g)
        e.measurement_noise = np.array([[.5]]) if 'A' == k else np.array([[.8]])
        return e

    def system(k):
        m = models.LIN()[{'1': '2tv', '2': '2cv'}[k]]
        ys = [np.array([.6 * np.cos(2.1 * i + float(k))]) for i in range(N)]
        return m.system(), ys

    def build(seq):
        nodes = None
        for op in seq:
            if op[0] in 'nb':
                kw = {}
                for c in op[1:] if op[0] == 'b' else '':
                    if c in 'ABC':
                        kw['estimator'] = make(c)
                    else:
                        s, ys = system(c)
                        kw['system'], kw['measurements'] = s, ys
                nodes = build_nodes(N=N, dim=2, **kw)
            elif op[0] == 'e':
                nodes = node_estimator(nodes=nodes, estimator=make(op[1]))
            else:
                s, ys = system(op[1])
                nodes = node_system(nodes=nodes, system_model=s, measurements=ys)
        return nodes

    text = ''.join(order)
    last_e = [c for c in text if c in 'ABC'][-1]
    last_s = [c for c in text if c in '12'][-1]
    got = build(order)
    check_chain(rec, got, N, 2)
    want = build(['none', 's' + last_s, 'e' + last_e])
    for sweep in range(2):
        Iterations.ep_fwd_back_updates(got)
        Iterations.ep_fwd_back_updates(want)
        for i, (a, b) in enumerate(zip(graph.values(got), graph.values(want))):
            for name, x, y in zip(graph.NAMES, a, b):
                if not (graph.unchanged(x, y) or not graph.differs(x, y, 1e-10)):
                    rec.fail('attachments %s: after sweep %d, %s of node %d is %s, but %s on a graph given only estimator %s '
                             'and system %s' % (order, sweep + 1, name, i + 1, x, y, last_e, last_s))
    rec.ran()
    rec.step(len(order))
    rec.state(N, order)
    rec.outcome(N, order)


def independent(case, rec):
    """updates (and even in-place changes) on one graph leave every other graph alone"""
    m = models.LIN()[case['model']]
    N = case['N']
    ys = data(m, N)
    est = models.make_estimator(m, ['UT', 1, 2, 1], ['TT'], m.n, alpha=.5, gamma=.5)
    s = m.system()
    for warm in (0, 1):
        g = [models.make_nodes(m, ys, est, system=s) for _ in range(2)]
        if warm:
            from ExpectationPropagation import Iterations
            Iterations.ep_fwd_back_updates(g[0])
            Iterations.ep_fwd_back_updates(g[1])
        g.append(copy.deepcopy(g[0]))
        for a, b in itertools.permutations(range(3), 2):
            for path in itertools.product(graph.ops(N), repeat=case['depth']):
                A, B = copy.deepcopy(g[a]), g[b]
                if (a, b) in ((0, 2), (2, 0)):
                    # the pair (graph, its deep copy) itself
                    B = copy.deepcopy(A)
                before = graph.values(B)
                for op in path:
                    graph.apply(A, op)
                    rec.step()
                expect_same(rec, before, graph.values(B), 'updates %s on one graph' % (path,))
        # in-place changes of everything one graph holds
        for a, b in itertools.permutations(range(3), 2):
            before = graph.values(g[b])
            for nd in g[a]:
                for name in graph.NAMES:
                    q = getattr(nd, name)
                    for arr in (q.mean, q.cov, q.precision, q.shift):
                        old = arr.copy()
                        arr[...] = 7.5
                        expect_same(rec, before, graph.values(g[b]), 'changing an array of %s of node %d in place'
                                    % (name, nd.index + 1))
                        arr[...] = old
        rec.ran()
        rec.state(case['model'], N, warm)
        rec.outcome(case['model'], N, warm)


def expect_same(rec, before, after, what):
    for i, (x, y) in enumerate(zip(before, after)):
        for name, p, q in zip(graph.NAMES, x, y):
            rec.require(graph.unchanged(p, q), '%s changed %s of node %d of another graph' % (what, name, i + 1))
