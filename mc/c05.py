"""C05: transforms of nonlinear functions against their textbook definitions; all short histories of one object."""
import functools
import itertools
import math

import numpy as np

from . import ref
from .c01 import inverse, spd, vec

ID = 'C05'
TITLE = 'transforms of nonlinear functions follow their definitions'
LEVEL = 'exploration'
RULE = ('every (function, state, parameters) of the grid, and every sequence of up to 3 uses of one transform object; '
        'non-trivial: distinct answer of a function that is not affine')
ASSUMPTIONS = ['references: sigma points from the lower Cholesky factor (columns), analytic Jacobians, numpy moments of '
               'the samples the function was given']

PARAMS = [(1, 2, 1), (1, 2, 3), (1, 0, 2), (.5, 2, 1), (.1, 2, 0), (2, 1, .5), (.7, 0, 3), (1e-3, 2, 0),
          (1, 0, -.5), (.5, 2, -.25)]


def functions(n):
    """name -> (batched autograd-able function, one-vector function, Jacobian, quadratic form or None)"""
    out = {}

    def add(name, cols, one, jac, quad=None):
        def batched(x):
            import autograd.numpy as anp
            X = anp.atleast_2d(x)
            return anp.stack(cols([X[:, i] for i in range(n)], anp), axis=1)
        out[name] = (batched, lambda x: np.array(one([float(v) for v in x])), lambda x: np.array(jac(x), dtype=float), quad)

    B = np.array([[((i * 3 + j * 5) % 7 - 3) / 4. for j in range(n)] for i in range(n)])
    B = B + B.T
    B2 = np.eye(n) * .5 - .1
    add('quad', lambda c, p: [sum(B[i, j] * c[i] * c[j] for i in range(n) for j in range(n)),
                              sum(B2[i, j] * c[i] * c[j] for i in range(n) for j in range(n)) + c[0]],
        lambda x: [sum(B[i, j] * x[i] * x[j] for i in range(n) for j in range(n)),
                   sum(B2[i, j] * x[i] * x[j] for i in range(n) for j in range(n)) + x[0]],
        lambda x: [(2 * B @ x).tolist(), (2 * B2 @ x + np.eye(n)[0]).tolist()], (B, B2))
    add('sin', lambda c, p: [p.sin(v) + .2 * v * v for v in c], lambda x: [math.sin(v) + .2 * v * v for v in x],
        lambda x: np.diag([math.cos(v) + .4 * v for v in x]))
    add('exp', lambda c, p: [p.exp(-.5 * c[0]) * c[-1]],
        lambda x: [math.exp(-.5 * x[0]) * x[-1]],
        lambda x: [[(-.5 * math.exp(-.5 * x[0]) * x[-1] if i == 0 else 0.) + (math.exp(-.5 * x[0]) if i == n - 1 else 0.)
                    for i in range(n)]])
    add('mix', lambda c, p: [c[0] / (1 + c[-1] ** 2), p.cos(c[0]) * c[-1], c[0] ** 3, 1. + 0 * c[0]],
        lambda x: [x[0] / (1 + x[-1] ** 2), math.cos(x[0]) * x[-1], x[0] ** 3, 1.],
        lambda x: mixjac(x, n))
    return out


def mixjac(x, n):
    J = np.zeros((4, n))
    a, b = x[0], x[-1]
    J[0, 0] += 1 / (1 + b * b)
    J[0, -1] += -2 * a * b / (1 + b * b) ** 2
    J[1, 0] += -math.sin(a) * b
    J[1, -1] += math.cos(a)
    J[2, 0] += 3 * a * a
    return J


def elementwise():
    """scalar functions that keep the shape they are given, as the growth model's do"""
    return {'ungm': (lambda x, p: .5 * x + 25 * x / (1 + x ** 2), lambda x: .5 + 25 * (1 - x * x) / (1 + x * x) ** 2),
            'sq': (lambda x, p: x ** 2 / 20, lambda x: x / 10),
            'cos': (lambda x, p: 8 * p.cos(1.2 * x), lambda x: -9.6 * math.sin(1.2 * x))}


STATES = 5


def state(n, k):
    from StateModel import Gaussian
    s = (1., .25, 1e-4, 4., 1., .5)[k]
    m, P = vec(n, k % 5 + 1) * .4, spd(n, k) * s         # state 5 has the mean of state 0
    if k in (1, 4):
        L = inverse(P)
        return Gaussian(precision_mat=L, shift_vec=L @ m), m, P
    return Gaussian(m.copy(), P.copy()), m, P


def spec_list():
    return [['TT']] + [['UT'] + list(p) for p in PARAMS]


def cases(tier):
    out = []
    for n in (1, 2, 3, 4, 7, 10) + (() if tier == 'quick' else (5, 6, 9, 12, 20)):
        for s in spec_list() + ([['UT', 1, 0, 3 - n]] if n > 3 else []) + [['MC', 30], ['MC', 1000], ['MC', None]]:
            out.append({'kind': 'define', 'n': n, 'spec': s})
    for n in (1, 2, 3):
        for s in [['TT'], ['UT', 1, 2, 1], ['UT', .5, 0, 2], ['MC', 40]]:
            for first in range(8 if tier == 'quick' else 14):
                out.append({'kind': 'reuse', 'n': n, 'spec': s, 'first': first, 'length': 3 if tier == 'quick' else 4})
    for n in (1, 2, 3):
        for first in range(len(SHARE)):
            out.append({'kind': 'share', 'n': n, 'first': first, 'length': 3 if tier == 'quick' else 4})
    for n in (1, 2, 3, 4):
        out.append({'kind': 'numeric', 'n': n})
    return out


SHARE = (['TT'], ['UT', 1, 2, 1], ['UT', 1, 2, 3], ['UT', .5, 0, 2], ['MC', 20])


def make(spec, n):
    from MomentMatching import MonteCarloTransform, TaylorTransform, UnscentedTransform
    if spec[0] == 'TT':
        return TaylorTransform(dim=n)
    if spec[0] == 'UT':
        return UnscentedTransform(dim=n, alpha=spec[1], beta=spec[2], kappa=spec[3])
    if spec[1] is None:
        return MonteCarloTransform(dim=n)
    return MonteCarloTransform(dim=n, number_of_samples=spec[1])


def run(case, rec):
    return globals()[case['kind']](case, rec)


def share(case, rec):
    """Every sequence of different transforms of one state object gives the answers of a fresh state."""
    n = case['n']
    funcs = functions(n)
    for k in (0, 1):
        for name in ('quad', 'mix'):
            def use(i, s):
                np.random.seed(17)
                return [np.array(x) for x in make(SHARE[i], n)(funcs[name][0], s)]
            fresh = [use(i, state(n, k)[0]) for i in range(len(SHARE))]
            for rest in itertools.product(range(len(SHARE)), repeat=case['length'] - 1):
                s = state(n, k)[0]
                for i in (case['first'],) + rest:
                    for g, w in zip(use(i, s), fresh[i]):
                        rec.close(g, w, '%s of %s in the sequence %s of transforms of one state object'
                                  % (SHARE[i], name, [SHARE[j] for j in (case['first'],) + rest]), rtol=1e-12)
                    rec.step()
                rec.ran()
                rec.trace()
    rec.outcome(n, case['first'])


def numeric(case, rec):
    """The numerical Jacobian of every function at every point with every step: the true one up to the step's square."""
    from MomentMatching import TaylorTransform
    n = case['n']
    for name, (_, one, jac, quad) in functions(n).items():
        for k in range(STATES):
            for scale in (.3, 1., 3.):
                x = vec(n, k + 1) * scale
                want = np.atleast_2d(jac(x))
                top = 1 + np.abs(x).max()
                for eps in (None, 1e-4, 1e-3, 1e-2):
                    before = x.copy()
                    got = TaylorTransform.numerical_jacobian(lambda z: np.atleast_1d(one(z)), x, **({} if eps is None else {'eps': eps}))
                    e = eps or 1e-4
                    bound = 1e-14 * top ** 3 / e * 10 + (0 if quad is not None else 5 * top ** 2 * math.exp(.5 * np.abs(x).max()) * e * e)
                    rec.require(np.shape(got) == want.shape, 'numerical Jacobian of %s at %s has shape %s' % (name, x, np.shape(got)))
                    rec.require(np.abs(got - want).max() <= bound * (1 + np.abs(want).max()) + 1e-10,
                                'numerical Jacobian of %s at %s with step %s: %s instead of %s' % (name, x, eps, got, want))
                    rec.require(np.array_equal(x, before), 'the numerical Jacobian of %s changed the point' % name)
                    rec.ran()
                    if rec.state('num', n, name, k, scale, eps):
                        rec.outcome('num', np.round(got, 4))


def snapshot(s):
    return [np.array(a) for a in (s.mean, s.cov, s.precision, s.shift)]


def define(case, rec):
    n, spec = case['n'], case['spec']
    tr = make(spec, n)
    funcs = dict(functions(n))
    if n == 1:
        for name, (f, d) in elementwise().items():
            def batched(x, f=f):
                import autograd.numpy as anp
                return f(x, anp)
            funcs['el-' + name] = (batched, lambda x, f=f: np.array([f(float(x[0]), np)]),
                                   lambda x, d=d: np.array([[d(float(x[0]))]]), None)
    for k in range(STATES):
        for name, (fb, f1, jac, quad) in funcs.items():
            s, m, P = state(n, k)
            before = snapshot(s)
            what = '%s of %s, state %d, n=%d: %%s' % (spec, name, k, n)
            if spec[0] == 'MC':
                seen = []

                def spy(x):
                    seen.append(np.array(x))
                    return fb(x)
                np.random.seed(3)
                got = tr(spy, s)
                X = np.concatenate([np.atleast_2d(x) for x in seen])
                num = spec[1] or 10000
                rec.require(X.shape == (num, n), what % ('saw samples of shape %s' % (X.shape,)))
                Y = np.array([f1(x) for x in X])
                dx, dy = X - X.mean(axis=0), Y - Y.mean(axis=0)
                want = Y.mean(axis=0), dy.T @ dy / (num - 1), dx.T @ dy / (num - 1)
                np.random.seed(3)
                again = tr(fb, s)
                for g, a, l in zip(got, again, ('mean', 'cov', 'cross')):
                    rec.close(a, g, what % l + ' under the same seed', rtol=1e-12)
                third = tr(fb, s)
                rec.require(np.max(np.abs(third[0] - again[0])) > 0, what % 'two draws are identical')
                tol = 1e-9
            else:
                got = tr(fb, s)
                want = ref.transform(spec, f1, m, P, jac)
                tol = 1e-7 if spec[0] == 'UT' and spec[1] < .01 else 1e-8
                if quad is not None and spec[0] == 'UT':
                    for i, B in enumerate(quad):
                        ex = m @ B @ m + np.trace(B @ P) + (m[0] if i else 0.)
                        rec.close(float(got[0][i]), ex, what % 'mean of a quadratic', rtol=tol, atol=tol * (1 + np.max(np.abs(B)) * np.max(np.abs(m)) ** 2) / min(1, spec[1]))
            pts = np.max(np.abs(m)) + 3 * np.sqrt(np.max(P))
            ys = max(np.max(np.abs(f1(m))), np.sqrt(np.max(np.abs(want[1]))), 1e-3)
            for g, w, l, sc in zip(got, want, ('mean', 'covariance', 'cross-covariance'), (ys, ys * ys, pts * ys)):
                rec.close(g, w, what % l, rtol=tol, atol=tol * sc)
            for a, b in zip(snapshot(s), before):
                rec.require(np.array_equal(a, b), what % 'the state was changed')
            rec.ran()
            rec.trace()
            rec.outcome(*want)


def timed(x, t=0., u=None):
    import autograd.numpy as anp
    X = anp.atleast_2d(x)
    return anp.stack([(.5 + t) * anp.sin(X[:, 0]) + t * X[:, -1], anp.exp(-t * X[:, -1])], axis=1)


def reuse(case, rec):
    """Every sequence of uses of one object gives the answers a fresh object gives (same random seed per use)."""
    n, spec = case['n'], case['spec']
    funcs = functions(n)
    # the same function with different bound arguments, as the filters bind time and control
    for t in (0., 1.3):
        funcs['bound%s' % t] = (functools.partial(timed, t=t), None, None, None)
    alpha = list(itertools.product(['quad', 'bound0.0', 'bound1.3'], (0, 5)))
    alpha += list(itertools.product(['exp', 'mix'], (0, 1)))
    alpha += list(itertools.product(['quad', 'sin', 'bound1.3'], (2, 3)))
    alpha = alpha[:max(8, case['first'] + 1)]

    def use(tr, a):
        s, m, P = state(n, a[1])
        np.random.seed(17)
        return [np.array(x) for x in tr(funcs[a[0]][0], s)]

    fresh = {a: use(make(spec, n), a) for a in alpha}
    for rest in itertools.product(range(len(alpha)), repeat=case['length'] - 1):
        seq = (case['first'],) + rest
        tr = make(spec, n)
        kept = []
        for i in seq:
            np.random.seed(17)
            s, m, P = state(n, alpha[i][1])
            got = tr(funcs[alpha[i][0]][0], s)
            kept.append((got, fresh[alpha[i]]))
            rec.step()
        for (got, want), i in zip(kept, seq):          # earlier answers must survive later uses
            for g, w in zip(got, want):
                rec.close(g, w, 'use %s in the sequence %s of one %s object' % (alpha[i], [alpha[j] for j in seq], spec),
                          rtol=1e-12)
        rec.ran()
        rec.trace()
    rec.state(n, spec, case['first'])
    for a in alpha:
        rec.outcome(n, spec, *fresh[a])
