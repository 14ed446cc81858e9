"""C26: every short sequence of states and samples, drawn off-screen and read back from the axes."""
import itertools

import numpy as np

from . import models

ID = 'C26'
TITLE = 'plots show the data: mean line and the stated uncertainty band'
LEVEL = 'exploration'
RULE = ('every sequence of states over a small alphabet up to the length bound x representation x options, and every small sample '
        'matrix; drawn on Agg and read back from the artists; non-trivial: distinct (sequence, options)')
ASSUMPTIONS = ['a band is read back as the filled polygon, extreme values per abscissa']

LETTERS = ((0., 1.), (-2.5, .25), (7., 9.))
WIDE = ((0., 1e10), (1e-6, 1e-12), (-300., 4.))      # a vacuous marginal among sharp ones


def cases(tier):
    q = tier == 'quick'
    out = []
    for N in range(1, 4 if q else 6):
        for head in range(3):
            for rep in ('moment', 'natural'):
                out.append({'kind': 'gaussian', 'N': N, 'head': head, 'rep': rep})
    for N in range(1, 4 if q else 5):
        for opts in itertools.product((0, 1), repeat=2):
            for head in range(3):
                out.append({'kind': 'node', 'N': N, 'head': head, 'truth': opts[0], 'ax': opts[1]})
    for N in (1, 2, 3):
        for head in range(3):
            out.append({'kind': 'gaussian', 'N': N, 'head': head, 'rep': 'moment', 'wide': True})
            out.append({'kind': 'node', 'N': N, 'head': head, 'truth': 0, 'ax': 1, 'wide': True})
    for N in (101, 250, 1000):
        for kind in ('gaussian', 'node'):
            out.append(dict({'kind': kind, 'N': N, 'head': 0, 'rep': 'moment', 'truth': 1, 'ax': 1, 'long': True}))
    for S in (1, 2, 3):
        for T in (1, 2) if q else (1, 2, 3):
            if 3 ** (S * T) > (100 if q else 1000):
                continue
            for ax in (0, 1):
                out.append({'kind': 'samples', 'S': S, 'T': T, 'ax': ax})
    for N in (1, 3, 20):
        for name in ('1', '2cv', '3', 'UNGM'):
            out.append({'kind': 'results', 'N': N, 'model': name})
    for S, T in itertools.product((1, 2, 5, 40), (1, 2, 7, 30)):
        out.append({'kind': 'bigsamples', 'S': S, 'T': T})
    return out


def run(case, rec):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    try:
        globals()['do_' + case['kind']](case, rec, plt)
    finally:
        plt.close('all')


def band(rec, ax, time, lo, hi, what, count=1):
    from matplotlib.collections import PolyCollection
    polys = [c for c in ax.collections if isinstance(c, PolyCollection)]
    rec.require(len(polys) == count, '%s: %d bands instead of %d' % (what, len(polys), count))
    if not count:
        return None
    v = np.concatenate([np.asarray(p.vertices) for p in polys[0].get_paths()])
    got_t = sorted(set(v[:, 0].tolist()))
    rec.require(got_t == [float(t) for t in time], '%s: band over times %s instead of %s' % (what, got_t, list(time)))
    for t, l, h in zip(time, lo, hi):
        ys = v[v[:, 0] == t][:, 1]
        rec.close([ys.min(), ys.max()], [l, h], '%s: band at time %s' % (what, t), rtol=1e-7, atol=1e-9)
    return polys[0]


def lines(rec, ax, time, columns, what):
    got = ax.get_lines()
    rec.require(len(got) == len(columns), '%s: %d lines instead of %d' % (what, len(got), len(columns)))
    for g, c in zip(got, columns):
        rec.close(np.asarray(g.get_xdata(), dtype=float), np.asarray(time, dtype=float), what + ': times of the line', atol=0, rtol=0)
        rec.close(np.ravel(np.asarray(g.get_ydata(), dtype=float)), c, what + ': line', rtol=1e-7, atol=1e-9)


def sequences(case):
    letters = WIDE if case.get('wide') else LETTERS
    if case.get('long'):
        yield [(letters[i * i % 7 % 3][0] + .01 * i, letters[i * i % 5 % 3][1]) for i in range(case['N'])]
        return
    for tail in itertools.product(range(3), repeat=case['N'] - 1):
        yield [letters[i] for i in (case['head'],) + tail]


def gaussians(seq, rep):
    from StateModel import Gaussian
    out = []
    for m, v in seq:
        if rep == 'moment':
            out.append(Gaussian(np.array([m]), np.array([[v]])))
        else:
            out.append(Gaussian(precision_mat=np.array([[1 / v]]), shift_vec=np.array([m / v])))
    return out


def empty(ax):
    return not ax.get_lines() and not ax.collections


def do_gaussian(case, rec, plt):
    from Utils.Plot_Helper import plot_gaussian
    N = case['N']
    for seq in sequences(case):
        states = gaussians(seq, case['rep'])
        fig, (other, ax) = plt.subplots(2)
        plt.sca(ax)
        plot_gaussian(states, **({'label': 'band'} if N % 2 else {}))
        what = 'plot_gaussian(%s)' % str(seq)[:300]
        p = band(rec, ax, range(N), [m - 1.96 * v ** .5 for m, v in seq], [m + 1.96 * v ** .5 for m, v in seq], what)
        if N % 2:
            rec.require(p.get_label() == 'band', what + ': label %r' % p.get_label())
        rec.require(empty(other), what + ' drew on other axes')
        for s, (m, v) in zip(states, seq):
            rec.close([float(s.mean[0]), float(s.cov[0, 0])], [m, v], what + ' changed a state')
        plt.close(fig)
        rec.ran()
        rec.outcome('gaussian', seq, case['rep'])


class Node:
    def __init__(self, marginal):
        self.marginal = marginal


def do_node(case, rec, plt):
    from Utils.Plot_Helper import plot_gaussian_node
    from ExpectationPropagation.Nodes import build_nodes
    N = case['N']
    for seq in sequences(case):
        nodes = build_nodes(N=N, dim=1)
        for n, s in zip(nodes, gaussians(seq, 'natural' if N == 2 else 'moment')):
            n.marginal = s
        truth = [np.array([.5 * i - 1.]) for i in range(N)]
        truth = {0: None, 1: np.array(truth).ravel() if N % 2 else truth}[case['truth']]
        kw = {} if truth is None else {'ground_truth': truth}
        fig, (ax, other) = plt.subplots(2)
        if case['ax']:
            kw['ax'] = ax
        before = len(plt.get_fignums())
        got = plot_gaussian_node(nodes, **kw)
        what = 'plot_gaussian_node(%s, truth=%s, ax=%s)' % (str(seq)[:300], truth is not None, case['ax'])
        if case['ax']:
            rec.require(got is ax, what + ' did not return the given axes')
            rec.require(len(plt.get_fignums()) == before, what + ' opened another figure')
            rec.require(empty(other), what + ' drew on other axes')
        else:
            rec.require(empty(ax) and empty(other), what + ' drew on old axes')
        time = range(1, N + 1)
        band(rec, got, time, [m - 1.96 * v ** .5 for m, v in seq], [m + 1.96 * v ** .5 for m, v in seq], what)
        lines(rec, got, time, [[m for m, _ in seq]] + ([np.ravel(truth)] if truth is not None else []), what)
        for n, (m, v) in zip(nodes, seq):
            rec.close([float(n.marginal.mean[0]), float(n.marginal.cov[0, 0])], [m, v], what + ' changed a node')
        plt.close('all')
        rec.ran()
        rec.outcome('node', seq, case['truth'], case['ax'])


def samples_check(rec, plt, data, use_ax, label):
    from Utils.Plot_Helper import plot_1d_data
    S, T = data.shape
    keep = data.copy()
    fig, (ax, other) = plt.subplots(2)
    kw = {'label': label, 'c': 'r'} if label else {}
    if use_ax:
        kw['ax'] = ax
    got = plot_1d_data(data, **kw)
    what = 'plot_1d_data(%s)' % core_show(data)
    rec.require(np.array_equal(data, keep), what + ' changed the data')
    if use_ax:
        rec.require(got is ax and empty(other), what + ' did not draw on the given axes')
    else:
        rec.require(empty(ax) and empty(other), what + ' drew on old axes')
    mean = [sum(float(v) for v in data[:, t]) / S for t in range(T)]
    std = [(sum((float(v) - mean[t]) ** 2 for v in data[:, t]) / S) ** .5 for t in range(T)]
    lines(rec, got, range(1, T + 1), [mean], what)
    band(rec, got, range(1, T + 1), [m - s for m, s in zip(mean, std)], [m + s for m, s in zip(mean, std)], what, count=1 if S > 1 else 0)
    if label:
        rec.require(got.get_lines()[0].get_label() == label, what + ': label')
    plt.close('all')
    rec.ran()


def core_show(a):
    return repr(a.tolist())[:200]


def do_samples(case, rec, plt):
    S, T = case['S'], case['T']
    for k, v in enumerate(itertools.product((0, -1.5, 4), repeat=S * T)):
        data = np.array(v, dtype=float if k % 2 else None).reshape(S, T)
        samples_check(rec, plt, data, case['ax'], 'x' if k % 3 else None)
        rec.outcome('samples', data, case['ax'])


def do_bigsamples(case, rec, plt):
    S, T = case['S'], case['T']
    data = np.array([[((i * 37 + j * 11) % 23 - 11) * .7 for j in range(T)] for i in range(S)])
    for ax in (0, 1):
        samples_check(rec, plt, data, ax, 'y')
    rec.outcome('big', S, T)


def do_results(case, rec, plt):
    """What the filters, smoothers and EP really return."""
    from ExpectationPropagation.Iterations import ep_fwd_back_updates
    from Filters.KalmanFilter import IEKS, KalmanFilterSmoother
    from Utils.Plot_Helper import plot_gaussian, plot_gaussian_node
    N = case['N']
    if case['model'] in models.BENCH:
        s = models.bench(case['model'])
        np.random.seed(1)
        data = s.simulate(N)
        ys = [np.ravel(y) for _, y in data]
    else:
        m = models.LIN()[case['model']]
        s = m.system()
        ys = [models.alphabet(m.p)[i % 3] for i in range(N)]
    n = s.system_dim
    est = models.make_estimator(s, ['UT', 1, 2, 1], ['TT'], n)
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    nodes = node_system(nodes=node_estimator(nodes=build_nodes(N=N, dim=n), estimator=est), system_model=s, measurements=ys)
    ep_fwd_back_updates(nodes)
    kf = KalmanFilterSmoother(models.make_transform(['TT'], n), s)
    filtered = kf.kalman_filter(ys)
    sets = [filtered, kf.kalman_smoother(filtered) if N > 1 else filtered]
    for states in sets:
        fig, ax = plt.subplots()
        mom = [(np.ravel(q.mean)[0], q.cov[0, 0]) for q in states]
        plot_gaussian(states)
        band(rec, ax, range(len(states)), [m - 1.96 * v ** .5 for m, v in mom], [m + 1.96 * v ** .5 for m, v in mom], 'plot_gaussian of results')
        plt.close(fig)
        rec.ran()
    mom = [(np.ravel(q.marginal.mean), q.marginal.cov[0, 0]) for q in nodes]
    fig, ax = plt.subplots()
    truth = np.array([[.1 * i] for i in range(N)])
    plot_gaussian_node(nodes, ground_truth=truth, ax=ax)
    time = range(1, N + 1)
    band(rec, ax, time, [m[0] - 1.96 * v ** .5 for m, v in mom], [m[0] + 1.96 * v ** .5 for m, v in mom], 'plot_gaussian_node of EP nodes')
    lines(rec, ax, time, [[m[k] for m, _ in mom] for k in range(n)] + [truth.ravel()], 'plot_gaussian_node of EP nodes')
    rec.ran()
    rec.outcome('results', case)
