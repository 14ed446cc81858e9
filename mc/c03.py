"""C03: scores. Every state/point of a grid, every trajectory over a small alphabet of states and points."""
import itertools
import math
from fractions import Fraction

import numpy as np

from .c01 import inverse, spd, vec

ID = 'C03'
TITLE = 'NLL and RMSE scores'
LEVEL = 'exploration'
RULE = ('every (state, representation, point, point shape) of the grid and every trajectory up to the stated length '
        'over 4 states x 3 points; non-trivial: distinct score')
ASSUMPTIONS = ['eigenvalue ratio of a covariance at least 1e-6 (scipy treats smaller ratios as singular)']


def logdet_exact(P):
    """determinant by exact rational elimination"""
    M = [[Fraction(float(v)) for v in r] for r in P]
    n, det = len(M), Fraction(1)
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            det = -det
        det *= M[c][c]
        for r in range(c + 1, n):
            f = M[r][c] / M[c][c]
            M[r] = [a - f * b for a, b in zip(M[r], M[c])]
    return math.log(det.numerator) - math.log(det.denominator)


def nll(m, P, x):
    d = np.ravel(x) - np.ravel(m)
    return .5 * (d @ inverse(P) @ d + logdet_exact(P) + len(d) * math.log(2 * math.pi))


def state(n, k, s, how):
    from StateModel import Gaussian
    m, P = vec(n, k), spd(n, k) * s
    if how == 'moment':
        return Gaussian(m.copy(), P.copy()), m, P
    if how == 'natural':
        L = inverse(P)
        return Gaussian(precision_mat=L, shift_vec=L @ m), m, P
    a, b = Gaussian(m.copy(), P * 2), Gaussian(m.copy(), P * 2)
    return a * b, m, P


def shapes(x):
    out = [('vector', x.copy()), ('row', x[None, :].copy()), ('list', x.tolist())]
    if len(x) == 1:
        out += [('scalar', float(x[0])), ('0-d', np.array(x[0]))]
    return out


def cases(tier):
    out = [{'kind': 'point', 'dim': n, 'scale': s, 'how': h} for n in (1, 2, 3, 4, 5, 8, 12)
           for s in (1e-6, 1e-2, 1., 1e2, 1e6) for h in ('moment', 'natural', 'product')]
    for n in (2, 3, 5):
        for rho in (1e-4, 1e-3, -.01, .03, -.04, .1, .3, .7, .95, .999):
            if rho > -1. / (n - 1):
                out.append({'kind': 'corr', 'dim': n, 'rho': rho})
    for n in (1, 2, 3):
        for T in range(1, 4 if tier == 'quick' else 5):
            for shape in ('vector', 'row'):
                for first in range(12):
                    out.append({'kind': 'path', 'dim': n, 'T': T, 'shape': shape, 'first': first})
    for n in (1, 2, 4):
        for T in (7, 50, 300):
            for shape in ('vector', 'row'):
                out.append({'kind': 'path', 'dim': n, 'T': T, 'shape': shape, 'first': T % 12, 'long': True})
    for T in range(1, 4):
        out.append({'kind': 'parts', 'T': T})
    for n in (2, 3, 4):
        out.append({'kind': 'degenerate', 'dim': n})
    return out


def run(case, rec):
    return globals()[case['kind']](case, rec)


def point(case, rec):
    n = case['dim']
    for k in range(5):
        g, m, P = state(n, k, case['scale'], case['how'])
        sd = np.sqrt(np.diag(P))
        pts = [m.copy()] + [m + c * sd * np.array([(-1.) ** i for i in range(n)]) for c in (.5, -3., 40.)] + [vec(n, k + 3), np.zeros(n)]
        for x in pts:
            want, dist = nll(m, P, x), float(np.sum((x - m) ** 2))
            for name, xs in shapes(x):
                got = g.nll(xs)
                rec.require(np.ndim(got) == 0 or np.size(got) == 1, 'nll of one point returned %r' % (got,))
                rec.close(float(np.ravel(got)[0]), want, 'nll of %s point %r under mean %r cov %r' % (name, x.tolist(), m.tolist(), P.tolist()),
                          rtol=1e-7 * max(1, np.linalg.cond(P) * 1e-6), atol=1e-7)
                if name in ('list',):
                    rec.ran()
                    continue
                got = g.squared_error(xs)
                rec.require(np.size(got) == 1, 'squared error of one point returned %r' % (got,))
                rec.close(float(np.ravel(got)[0]), dist, 'squared error of %s point' % name, rtol=1e-7,
                          atol=1e-9 * (1 + float(np.max(np.abs(m))) ** 2))
                rec.ran(2)
                rec.trace()
            rec.outcome(want, dist)


def degenerate(case, rec):
    """scoring a state whose covariance is (nearly) singular leaves the state as it was"""
    from StateModel import Gaussian
    n = case['dim']
    one = np.arange(1., n + 1)
    m = vec(n, 2)
    for P in (np.ones((n, n)), np.outer(one, one), np.eye(n) * 1e-14, np.diag([1.] + [0.] * (n - 1)), np.zeros((n, n)),
              np.outer(one, one) + 1e-12 * np.eye(n), np.diag([10. ** (-6 * i) for i in range(n)])):
        for calls in itertools.product(('nll', 'squared_error'), repeat=2):
            for x in (m, m + one, np.zeros(n)):
                g = Gaussian(m.copy(), P.copy())
                for c in calls:
                    try:
                        getattr(g, c)(x.copy())
                    except (np.linalg.LinAlgError, ValueError):
                        rec.count('not_scored')
                rec.same(g.mean, m, 'the mean of a state with covariance %s after %s' % (P.tolist(), calls))
                rec.same(g.cov, P, 'the covariance %s after %s' % (P.tolist(), calls))
                rec.close(float(g.squared_error(x.copy())), float((x - m) @ (x - m)), 'squared error under covariance %s' % P.tolist())
                rec.ran()
        rec.outcome('degenerate', n, P)


def corr(case, rec):
    """weakly and strongly correlated covariances on equal and unequal scales"""
    from StateModel import Gaussian
    n, rho = case['dim'], case['rho']
    C = np.full((n, n), rho) + (1 - rho) * np.eye(n)
    for sds in ([1.] * n, [10. ** (i - 1) for i in range(n)] if n < 4 else [1., 2., .5, 3., .25], [1e-2] * n, [100.] * n):
        sd = np.array(sds)
        P = C * np.outer(sd, sd)
        m = vec(n, 1)
        for z in ([1.] * n, [(-1.) ** i * 3 for i in range(n)], [2.] + [0.] * (n - 1), [0.] * (n - 1) + [-6.]):
            x = m + np.array(z) * sd
            want = nll(m, P, x)
            L = inverse(P)
            for how, g in (('moment', Gaussian(m.copy(), P.copy())), ('natural', Gaussian(precision_mat=L, shift_vec=L @ m))):
                for name, xs in shapes(x):
                    rec.close(float(np.ravel(g.nll(xs))[0]), want, 'nll of the %s %s under mean %s cov %s (%s form)'
                              % (name, x.tolist(), m.tolist(), P.tolist(), how), rtol=1e-6 * max(1, np.linalg.cond(P) * 1e-6), atol=1e-6)
                    rec.ran()
            rec.trace()
            rec.outcome(want)


def alphabet(n):
    st = [(0, 1.), (1, .25), (2, 9.), (3, .01)]
    pts = [vec(n, 2), np.zeros(n), vec(n, 5) * 2]
    return [(s, p) for s in st for p in pts]


def path(case, rec):
    from ExpectationPropagation.Nodes import build_nodes
    from Utils import Metrics
    n, T = case['dim'], case['T']
    alpha = alphabet(n)
    for rest in [[(5 * i + i * i) % 12 for i in range(T - 1)]] if case.get('long') else itertools.product(range(len(alpha)), repeat=T - 1):
        rest = tuple(rest)
        idx = (case['first'],) + rest
        gs, xs, ms, Ps = [], [], [], []
        for j, i in enumerate(idx):
            (k, s), x = alpha[i]
            g, m, P = state(n, k, s, ('moment', 'natural', 'product')[j % 3])
            gs.append(g)
            ms.append(m)
            Ps.append(P)
            xs.append(x.copy() if case['shape'] == 'vector' else x[None, :].copy())
        want_nll = sum(NLL(n, i, alpha) for i in idx) / T
        want_rmse = math.sqrt(sum(float(np.sum((np.ravel(x) - m) ** 2)) for x, m in zip(xs, ms)) / T)
        rec.close(float(Metrics.nll(gs, xs)), want_nll, 'trajectory nll %r' % (idx,), rtol=1e-7, atol=1e-8)
        rec.close(float(Metrics.rmse(gs, xs)), want_rmse, 'trajectory rmse %r' % (idx,), rtol=1e-8)
        nodes = build_nodes(N=T, dim=n)
        for node, g in zip(nodes, gs):
            node.marginal = g
        r, l = Metrics.node_metrics(nodes, x_true=xs)
        rec.close(float(r), want_rmse, 'node_metrics rmse %r' % (idx,), rtol=1e-8)
        rec.close(float(l), want_nll, 'node_metrics nll %r' % (idx,), rtol=1e-7, atol=1e-8)
        r, l = Metrics.node_metrics(tuple(nodes), tuple(xs))
        rec.close(float(r), want_rmse, 'node_metrics of tuples', rtol=1e-8)
        rec.ran(4)
        rec.trace()
        rec.outcome(want_nll, want_rmse)


_cache = {}


def NLL(n, i, alpha):
    if (n, i) not in _cache:
        (k, s), x = alpha[i]
        _cache[n, i] = nll(vec(n, k), spd(n, k) * s, x)
    return _cache[n, i]


def parts(case, rec):
    """The turning-target experiment scores position, velocity and turn rate separately."""
    from Experiments.EP_Sweep_BearingsOnly import node_metrics
    from ExpectationPropagation.Nodes import build_nodes
    T = case['T']
    groups = [[0, 2], [1, 3], [4]]
    alpha = [(k, s, x) for k, s in ((0, 1.), (3, .04), (5, 25.)) for x in (vec(5, 2), vec(5, 6))]
    for idx in itertools.product(range(len(alpha)), repeat=T):
        nodes = build_nodes(N=T, dim=5)
        xs, want = [], [[0., 0.] for _ in groups]
        for j, (node, i) in enumerate(zip(nodes, idx)):
            k, s, x = alpha[i]
            g, m, P = state(5, k, s, ('moment', 'natural', 'product')[j % 3])
            node.marginal = g
            xs.append(x[None, :].copy())
            for w, ii in zip(want, groups):
                w[0] += float(np.sum((x[ii] - m[ii]) ** 2)) / T
                w[1] += nll(m[ii], P[np.ix_(ii, ii)], x[ii]) / T
        got = node_metrics(nodes, x_true=xs)
        flat = [v for w in want for v in (math.sqrt(w[0]), w[1])]
        rec.close(np.array([float(v) for v in got]), np.array(flat), 'position/velocity/angle metrics %r' % (idx,),
                  rtol=0, atol=1e-6 * (1 + np.max(np.abs(flat))))
        for a, b in zip(got, flat):
            rec.close(float(a), b, 'position/velocity/angle metrics %r' % (idx,), rtol=1e-6, atol=1e-7)
        rec.ran()
        rec.trace()
        rec.outcome(flat)
