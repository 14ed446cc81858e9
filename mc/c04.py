"""C04: affine exactness of every transform, over a grid of maps, states, parameters and calling conventions."""
import itertools

import numpy as np

from .c01 import inverse, spd, vec

ID = 'C04'
TITLE = 'transforms are exact on affine functions'
LEVEL = 'exploration'
RULE = ('every (state dimension, output dimension, matrix, offset, state, transform parameters, calling convention) of '
        'the grid; non-trivial: distinct exact answer of a map that is not zero')
ASSUMPTIONS = ['rounding of the unscented sums is bounded by 1e-13 times the sum of absolute weights times the squared '
               'magnitude of the propagated points']

PARAMS = [(1, 2, 1), (1, 2, 3), (1, 0, 2), (.5, 2, 1), (.1, 2, 0), (2, 1, .5), (1, 2, 0), (1e-3, 2, 0), (.7, 0, 3),
          (1, -1, 1), (1, 0, -.5), (.5, 2, -.25)]


SEMI = ('rank1', 'certain', 'known', 'equal')


def matrices(m, n):
    out = [('zero', np.zeros((m, n))), ('ones', np.ones((m, n)) * .5)]
    for k in range(2):
        out.append(('full%d' % k, np.array([[((i * 5 + j * 7 + k * 3) % 9 - 3) / 2. for j in range(n)] for i in range(m)])))
    for i in range(m):
        for j in range(n):
            E = np.zeros((m, n))
            E[i, j] = 1. + i - .5 * j
            out.append(('E%d%d' % (i, j), E))
    if m == n:
        out.append(('eye', np.eye(n)))
    return out


def states(n):
    from StateModel import Gaussian
    L = spd(n, 3)
    out = [('moment', lambda: Gaussian(vec(n, 1).copy(), spd(n, 1)), vec(n, 1), spd(n, 1)),
           ('natural', lambda: Gaussian(precision_mat=L.copy(), shift_vec=L @ vec(n, 2)), vec(n, 2), inverse(L)),
           ('sharp', lambda: Gaussian(vec(n, 4).copy(), 1e-8 * spd(n, 2)), vec(n, 4), 1e-8 * spd(n, 2)),
           ('wide', lambda: Gaussian(vec(n, 6) * 10, 1e6 * spd(n, 4)), vec(n, 6) * 10, 1e6 * spd(n, 4)),
           ('tiny', lambda: Gaussian(np.zeros(n), 1e-16 * spd(n, 3)), np.zeros(n), 1e-16 * spd(n, 3)),
           ('zeromean', lambda: Gaussian(np.zeros(n), spd(n, 5)), np.zeros(n), spd(n, 5)),
           ('diag', lambda: Gaussian(vec(n, 3).copy(), np.diag(np.arange(1., n + 1))), vec(n, 3), np.diag(np.arange(1., n + 1)))]
    for name, S in semidefinite(n):
        out.append((name, lambda S=S: Gaussian(vec(n, 2).copy(), S.copy()), vec(n, 2), S))
    return out


def semidefinite(n):
    """perfectly known directions: a rank-one covariance, one exactly known coordinate, and no uncertainty at all"""
    v = 1. + .5 * np.arange(n)
    out = [('rank1', np.outer(v, v)), ('certain', np.zeros((n, n)))]
    if n > 1:
        S = spd(n, 2)
        S[0, :] = S[:, 0] = 0.
        out.append(('known', S))
        out.append(('equal', np.ones((n, n))))
    return out


def functions(A, b):
    """calling conventions: matrix product on a batch, einsum, column stacking, and elementwise for scalars/diagonals"""
    m, n = A.shape

    def batched(x):
        import autograd.numpy as anp
        return anp.dot(anp.atleast_2d(x), A.T) + b

    def stacked(x):
        import autograd.numpy as anp
        X = anp.atleast_2d(x)
        return anp.array([sum(A[i, j] * X[:, j] for j in range(n)) + b[i] for i in range(m)]).T

    out = [('batched', batched), ('stacked', stacked)]
    if m == n and np.array_equal(A, np.diag(np.diag(A))):
        a = np.diag(A).copy()
        out.append(('elementwise', lambda x: a * x + b))
    if m == n == 1:
        out.append(('scalar', lambda x: float(A[0, 0]) * x + float(b[0])))
    return out


def cases(tier):
    out = []
    top = 4 if tier == 'quick' else 6
    for n, m in itertools.product(range(1, top + 1), repeat=2):
        out.append({'kind': 'TT', 'n': n, 'm': m})
        for p in PARAMS:
            out.append({'kind': 'UT', 'n': n, 'm': m, 'params': list(p)})
        out.append({'kind': 'MC', 'n': n, 'm': m})
    for n in (5, 8):
        for m in (1, 4):
            out.append({'kind': 'TT', 'n': n, 'm': m})
            for p in PARAMS[:5] + [(1, 0, 3 - n)]:
                if p[0] ** 2 * (n + p[2]) > 0:
                    out.append({'kind': 'UT', 'n': n, 'm': m, 'params': list(p)})
    for n in (1, 2, 3, 4):
        if n + (3 - n) > 0:
            out.append({'kind': 'UT', 'n': n, 'm': 2, 'params': [1, 0, 3 - n]})
    return out


def run(case, rec):
    from MomentMatching import MonteCarloTransform, TaylorTransform, UnscentedTransform
    n, m = case['n'], case['m']
    big = n + m > 6
    if case['kind'] == 'TT':
        tr, wsum = TaylorTransform(dim=n), 1.
    elif case['kind'] == 'UT':
        a, b_, k = case['params']
        tr = UnscentedTransform(dim=n, alpha=a, beta=b_, kappa=k)
        lam = a * a * (n + k) - n
        w = 1 / (2 * (n + lam))
        wsum = 2 * n * abs(w) + abs(lam / (n + lam)) + abs(lam / (n + lam) + 1 - a * a + b_)
        wsum = wsum * (1 + wsum)
    else:
        return monte_carlo(case, rec)
    for (name, A), bk in itertools.product(matrices(m, n), (0, 1)):
        if big and name[0] == 'E' and bk:
            continue
        b = vec(m, 3) if bk else np.zeros(m)
        for sname, mk, mean, P in states(n):
            ym, yc, cr = A @ mean + b, A @ P @ A.T, P @ A.T
            jit = 2e-10 * np.max(np.abs(A)) if sname in SEMI else 0.     # a singular covariance may be jittered
            mag = np.max(np.abs(mean)) + np.sqrt(np.max(P)) * 3 * np.sqrt(n)
            ymag = np.max(np.abs(b)) + np.max(np.abs(A)) * mag * n
            for fname, f in functions(A, b):
                if big and fname == 'stacked':
                    continue
                s = mk()
                got = tr(f, s)
                what = '%s%s %s of A=%s %s, state %s (n=%d,m=%d)' % (case['kind'], case.get('params', ''), '%s', name, fname, sname, n, m)
                rec.require(len(got) == 3, 'a transform returns (mean, cov, cross-covariance)')
                for g, want, label, scale, j in ((got[0], ym, 'mean', ymag, 0.),
                                                 (got[1], yc, 'covariance', ymag * ymag, jit * n * np.max(np.abs(A))),
                                                 (got[2], cr, 'cross-covariance', mag * ymag, jit)):
                    rec.close(g, want, what % label, rtol=1e-9,
                              atol=1e-13 * wsum * scale * (1 if label != 'mean' else 10) + 1e-300 + j)
                rec.ran()
                rec.trace()
                if name != 'zero':
                    rec.outcome(ym, yc, cr)


def monte_carlo(case, rec):
    """The samples are observed through the function argument; the answer must be exactly their affine image."""
    from MomentMatching import MonteCarloTransform
    n, m = case['n'], case['m']
    for num in (50, 2000):
        tr = MonteCarloTransform(dim=n, number_of_samples=num)
        for (name, A), bk in itertools.product(matrices(m, n), (0, 1)):
            if bk and name[0] == 'E':
                continue
            b = vec(m, 3) if bk else np.zeros(m)
            for sname, mk, mean, P in states(n)[:4] + [q for q in states(n) if q[0] in SEMI]:
                seen = []
                for fname, f in functions(A, b)[:1]:
                    def spy(x):
                        seen.append(np.array(x))
                        return f(x)
                    np.random.seed(11)
                    got = tr(spy, mk())
                    X = np.concatenate([np.atleast_2d(x) for x in seen])
                    rec.require(X.shape == (num, n), 'the function saw %s samples instead of (%d, %d)' % (X.shape, num, n))
                    xm = X.mean(axis=0)
                    S = (X - xm).T @ (X - xm) / (num - 1)
                    what = 'MC(%d) %s of A=%s state %s (n=%d, m=%d)' % (num, '%s', name, sname, n, m)
                    mag = np.max(np.abs(X))
                    rec.close(got[0], A @ xm + b, what % 'mean', rtol=1e-9, atol=1e-10 * mag)
                    rec.close(got[1], A @ S @ A.T, what % 'covariance', rtol=1e-9, atol=1e-12 * mag ** 2)
                    rec.close(got[2], S @ A.T, what % 'cross-covariance', rtol=1e-9, atol=1e-12 * mag ** 2)
                    # sampling error: 7 standard errors, a fixed seed
                    sd = np.sqrt(np.diag(P))
                    rec.require(np.all(np.abs(xm - mean) <= 7 * sd / np.sqrt(num) + 1e-7 * (1 + np.max(sd))), what % 'sample mean too far from the state')
                    rec.require(np.all(np.abs(S - P) <= 7 * np.sqrt(2. / num) * np.outer(sd, sd) + 1e-7 * (1 + np.max(P))), what % 'sample covariance too far from the state')
                    rec.ran()
                    rec.trace()
                    if name != 'zero':
                        rec.outcome(got[0], got[1], got[2])
