"""C25: every small symmetric/asymmetric integer matrix (exact verdicts by rational arithmetic), every non-finite position,
every jitter and option."""
import itertools
import warnings
from fractions import Fraction

import numpy as np
from numpy.linalg import LinAlgError

ID = 'C25'
TITLE = 'linear-algebra helpers: validation, jittered Cholesky and solve'
LEVEL = 'exploration'
RULE = ('every symmetric matrix with small integer entries up to the size bound (and power-of-two scalings), with exact '
        'definiteness from rational arithmetic; every non-finite entry position; every jitter x side x option; every '
        'asymmetric perturbation; non-trivial: distinct matrices (after scaling) and options')
ASSUMPTIONS = ['singular matrices whose floating-point factorisation is not exact have no required verdict',
               'solves are required only for condition numbers below 1e6']

RANGE = {1: range(-3, 4), 2: range(-3, 4), 3: (-1, 0, 1, 2)}


def cases(tier):
    q = tier == 'quick'
    out = []
    for what in ('validate', 'chol', 'solve', 'symmetrize'):
        for n in (1, 2):
            out.append({'what': what, 'n': n, 'first': None})
        letters = (-1, 0, 2) if q else RANGE[3]
        for first in itertools.product(letters, repeat=2):
            out.append({'what': what, 'n': 3, 'first': list(first), 'letters': list(letters)})
        diag = (1, 2, 3)
        for d in itertools.product(diag, repeat=1 if q else 4):
            out.append({'what': what, 'n': 4, 'diag': list(d) if not q else list(d) + [1, 2, 3]})
    for n in (1, 2, 3, 4):
        out.append({'what': 'nonfinite', 'n': n})
    for n in range(1, 9):
        out.append({'what': 'random', 'n': n})
    for n in range(5, 13 if q else 21):
        out.append({'what': 'large', 'n': n})
    return out


def mats(case):
    n = case['n']
    if 'matrix' in case:
        yield np.array(case['matrix'], dtype=float)
        return
    ix = [(i, j) for i in range(n) for j in range(i + 1)]
    if 'diag' in case:
        off = [p for p in ix if p[0] != p[1]]
        for v in itertools.product((-1, 0, 1), repeat=len(off)):
            a = np.diag(np.array(case['diag'], dtype=float))
            for (i, j), x in zip(off, v):
                a[i, j] = a[j, i] = x
            yield a
        return
    for v in itertools.product(case.get('letters', RANGE[n]), repeat=len(ix)):
        if case['first'] is not None and list(v[:2]) != case['first']:
            continue
        a = np.zeros((n, n))
        for (i, j), x in zip(ix, v):
            a[i, j] = a[j, i] = x
        yield a


def definiteness(a, shift=0):
    """'pd', 'singular' (positive semidefinite), 'no' - exactly, and the smallest pivot."""
    n = len(a)
    m = [[Fraction(float(a[i, j])) + (Fraction(shift) if i == j else 0) for j in range(n)] for i in range(n)]
    low = None
    singular = False
    for k in range(n):
        p = m[k][k]
        if p < 0:
            return 'no', p
        if p == 0:
            if any(m[i][k] != 0 for i in range(k + 1, n)):
                return 'no', p
            singular = True
            low = Fraction(0)
            continue
        low = p if low is None else min(low, p)
        for i in range(k + 1, n):
            f = m[i][k] / p
            if f:
                for j in range(k + 1, n):
                    m[i][j] -= f * m[k][j]
    return ('singular' if singular else 'pd'), low


def run(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['do_' + case['what']](case, rec)


# ------------------------------------------------------------------------------------------------------------- validate
def verdict(mean, cov):
    from StateModel import Gaussian
    from Utils.linalg import validate_covariance
    m, c = np.array(mean, dtype=float), np.array(cov, dtype=float)
    state = Gaussian(m.copy(), c.copy())
    try:
        validate_covariance(state)
        ok = True
    except LinAlgError:
        ok = False
    return ok, np.array_equal(state.mean, m, equal_nan=True) and np.array_equal(state.cov, c, equal_nan=True)


def do_validate(case, rec):
    n = case['n']
    for a in mats(case):
        kind, low = definiteness(a)
        for scale in case.get('scales', (1., 2. ** -26, 2. ** 26)):
            sub = {'what': 'validate', 'n': n, 'matrix': a.tolist(), 'scales': [scale]}
            ok, intact = verdict(np.arange(n) - 1., a * scale)
            rec.require(intact, 'validating changed the state', case=sub)
            if kind == 'pd':
                rec.require(ok, 'positive-definite covariance %s rejected' % (a * scale).tolist(), case=sub)
            elif kind == 'no':
                rec.require(not ok, 'covariance %s is not positive definite but was accepted' % (a * scale).tolist(), case=sub)
            elif np.count_nonzero(a - np.diag(np.diag(a))) == 0:
                rec.require(not ok, 'singular covariance %s was accepted' % (a * scale).tolist(), case=sub)
            rec.ran()
        rec.outcome('validate', a, kind)


def do_nonfinite(case, rec):
    n = case['n']
    good = np.eye(n) * 2. + .5
    for bad in (np.nan, np.inf, -np.inf):
        for i in range(n):
            m = np.zeros(n)
            m[i] = bad
            rec.require(not verdict(m, good)[0], 'a state with mean %s was accepted' % m)
            rec.ran()
            rec.outcome('mean', n, i, repr(bad))
            for j in range(i + 1):
                for other in (good, np.eye(n)):
                    c = other.copy()
                    c[i, j] = c[j, i] = bad
                    rec.require(not verdict(np.zeros(n), c)[0], 'a state with covariance %s was accepted' % c.tolist())
                    rec.ran()
                    rec.outcome('cov', n, i, j, repr(bad))
    rec.require(verdict(np.zeros(n), good)[0], 'a proper state was rejected')
    rec.require(verdict(np.full(n, 1e300), good * 1e-200)[0] and verdict(np.zeros(n), good * 1e200)[0], 'a proper state of extreme scale was rejected')


# --------------------------------------------------------------------------------------------------------- chol and solve
JITTERS = (None, 0., 1e-6, .5, 1., 2)


def skews(n):
    yield np.zeros((n, n))
    if n > 1:
        s = np.zeros((n, n))
        for i in range(n):
            for j in range(i):
                s[i, j], s[j, i] = 1. + i - .5 * j, -1. - i + .5 * j
        yield s


def do_chol(case, rec):
    from Utils.linalg import jittered_chol
    for a in mats(case):
        for jit in case.get('jitters', JITTERS):
            j = 0. if jit is None else jit
            kind, low = definiteness(a, j)
            for s, lower in itertools.product(skews(len(a)), (True, False, None)):
                sub = dict(case, matrix=a.tolist(), jitters=[jit])
                b = a + s
                keep = b.copy()
                kw = {} if lower is None else {'lower': lower}
                what = 'jittered_chol(%s, jitter=%s, %s)' % (b.tolist(), jit, kw)
                try:
                    L = jittered_chol(b, jitter=jit, **kw) if jit is not None else jittered_chol(b, **kw)
                except LinAlgError:
                    L = None
                rec.require(np.array_equal(b, keep), what + ' changed its argument', case=sub)
                rec.ran()
                if kind == 'no' and jit is None and definiteness(a, Fraction(1, 10 ** 8))[0] != 'no':
                    continue
                if kind == 'no':
                    rec.require(L is None, what + ' did not fail although the matrix is not positive definite', case=sub)
                elif kind == 'pd' and low > Fraction(1, 10 ** 4) or jit is None and kind == 'singular':
                    rec.require(L is not None, what + ' failed', case=sub)
                if L is None or kind == 'no':
                    continue
                tri = np.tril(L) if lower is not False else np.triu(L)
                rec.require(np.array_equal(tri, L), '%s is not triangular: %s' % (what, L.tolist()), case=sub)
                rec.require(np.all(np.diag(L) > 0) or kind == 'singular' and jit is not None, what + ' has a non-positive diagonal', case=sub)
                prod = L @ L.T if lower is not False else L.T @ L
                rec.close(prod, a + j * np.eye(len(a)), what + ' multiplied out', rtol=0, atol=1e-8 if jit is None else 1e-12, case=sub)
            rec.outcome('chol', a, jit)


def do_solve(case, rec):
    from Utils.linalg import jittered_solve
    n = case['n']
    rhs = [np.arange(n) * 1. - .5, np.array([[(i + 1.) * (-1) ** j + j for j in range(2)] for i in range(n)])]
    for a in mats(case):
        for jit in case.get('jitters', JITTERS):
            j = 0. if jit is None else jit
            M = a + j * np.eye(n)
            ev = np.abs(np.linalg.eigvalsh(M))
            if ev.min() < 1e-6 * ev.max() or ev.max() == 0:
                continue
            kind = definiteness(a, j)[0]
            for s, b, opt in itertools.product(skews(n), rhs, ('default', 'gen', 'sym', 'pos', 'transposed', 'overwrite')):
                if n > 2 and (opt in ('sym', 'overwrite') and jit not in (None, .5) or b.ndim > 1 and jit in (0., 2)):
                    continue
                sub = dict(case, matrix=a.tolist(), jitters=[jit])
                A, B = a + s, b.copy()
                KA, KB = A.copy(), B.copy()
                kw = {'default': {}, 'transposed': {'transposed': True}, 'overwrite': {'overwrite_a': True}}.get(opt, {'assume_a': opt})
                if jit is not None:
                    kw['jitter'] = jit
                what = 'jittered_solve(%s, %s, %s)' % (A.tolist(), B.tolist(), kw)
                x = jittered_solve(A, B, **kw)
                rec.require(np.array_equal(B, KB), what + ' changed the right-hand side', case=sub)
                if opt != 'overwrite':
                    rec.require(np.array_equal(A, KA), what + ' changed the matrix', case=sub)
                scale = np.max(np.abs(b)) + ev.max() * np.max(np.abs(x))
                rec.close(M @ x, b, what + ' does not solve the system', rtol=1e-8 if jit is None else 1e-9, atol=0, scale=scale, case=sub)
                rec.ran()
            rec.outcome('solve', a, jit, kind)


def do_symmetrize(case, rec):
    from Utils.linalg import symmetrize
    for a in mats(case):
        asym = np.arange(a.size).reshape(a.shape)
        for s in list(skews(len(a))) + [.1 * asym] + [scale * (1. + asym) / 3 for scale in (1e-6, 1e-9, 1e-12, 1e-15)]:
            b = a * .3 + s
            keep = b.copy()
            g = symmetrize(b)
            sub = dict(case, matrix=a.tolist())
            rec.require(np.array_equal(b, keep), 'symmetrize changed its argument', case=sub)
            rec.require(np.array_equal(g, g.T), 'symmetrize(%s) is not symmetric' % b.tolist(), case=sub)
            rec.close(g, [[(float(b[i, j]) + float(b[j, i])) / 2 for j in range(len(a))] for i in range(len(a))],
                      'symmetrize(%s)' % b.tolist(), rtol=4e-16, atol=0, case=sub)
            rec.require(np.array_equal(symmetrize(g), g), 'symmetrize is not idempotent on %s' % g.tolist(), case=sub)
            rec.ran()
        rec.same(symmetrize(a), a, 'symmetrize of a symmetric matrix', case=dict(case, matrix=a.tolist()))
        rec.outcome('sym', a)


def large(n):
    """one pair or one diagonal entry decides; or one pivot of an integer factorisation does"""
    for v in (2., .5, -2.):
        for i in range(n):
            for j in range(i):
                a = np.eye(n)
                a[i, j] = a[j, i] = v
                yield a
    for v in (-1., -2. ** -20, 2. ** -20, 2. ** 20):
        for i in range(n):
            a = np.eye(n)
            a[i, i] = v
            yield a
    L = np.array([[1. if i == j else float((i * 3 + j * 5) % 3 - 1) if j < i else 0. for j in range(n)] for i in range(n)])
    for v in (-1., 2.):
        for k in range(n):
            D = np.eye(n)
            D[k, k] = v
            yield L @ D @ L.T


def do_large(case, rec):
    """larger matrices, with exact verdicts"""
    from Utils.linalg import jittered_chol, jittered_solve
    n = case['n']
    for a in [np.array(case['matrix'], dtype=float)] if 'matrix' in case else large(n):
        sub = dict(case, matrix=a.tolist())
        kind, _ = definiteness(a)
        for scale in (1., 2. ** -30, 2. ** 30):
            ok, intact = verdict(np.arange(n) * 1., a * scale)
            rec.require(intact and ok == (kind == 'pd'), 'covariance %s (%s) was %s' % (
                (a * scale).tolist(), kind, 'accepted' if ok else 'rejected'), case=sub)
            rec.ran()
        rec.outcome('large', a)
        for jit in (0., 4.):
            M = a + jit * np.eye(n)
            for lower in (True, False):
                try:
                    F = jittered_chol(a, jitter=jit, lower=lower)
                except LinAlgError:
                    F = None
                rec.require((F is not None) == (definiteness(a, jit)[0] == 'pd'), 'jittered_chol(%s, jitter=%s) %s'
                            % (a.tolist(), jit, 'failed' if F is None else 'did not fail'), case=sub)
                if F is not None:
                    rec.close(F @ F.T if lower else F.T @ F, M, 'factor of %s multiplied out' % a.tolist(), rtol=1e-12, atol=1e-12, case=sub)
                rec.ran()
            ev = np.abs(np.linalg.eigvalsh(M))
            if ev.min() < 1e-5 * ev.max():
                continue
            b = np.arange(n) - 2.5
            x = jittered_solve(a, b, jitter=jit)
            rec.close(M @ x, b, 'jittered_solve(%s, jitter=%s)' % (a.tolist(), jit), rtol=1e-9, atol=0,
                      scale=np.max(np.abs(b)) + ev.max() * np.max(np.abs(x)), case=sub)


def do_random(case, rec):
    """Structured larger matrices: Hilbert-like, tridiagonal, nearly singular, badly scaled, of size n."""
    from Utils.linalg import jittered_chol, jittered_solve
    n = case['n']
    i = np.arange(n)
    fam = {'lehmer': np.minimum.outer(i + 1, i + 1) / np.maximum.outer(i + 1, i + 1), 'minij': np.minimum.outer(i + 1., i + 1.),
           'tri': 2.5 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1), 'kac': np.exp(-.5 * np.abs(np.subtract.outer(i, i))),
           'scaled': np.diag(10. ** (i - n / 2.)) @ (np.eye(n) + .3) @ np.diag(10. ** (i - n / 2.))}
    for name, a in fam.items():
        ok, _ = verdict(i * 1., a)
        rec.require(ok, 'positive-definite %s of size %d rejected' % (name, n))
        d = a.copy()
        d[n - 1, n - 1] = -1e-3 * abs(d[n - 1, n - 1])
        rec.require(not verdict(i * 1., d)[0], 'indefinite %s of size %d accepted' % (name, n))
        for jit in (0., 1e-3, 1.):
            M = a + jit * np.eye(n)
            L = jittered_chol(a, jitter=jit)
            U = jittered_chol(a, jitter=jit, lower=False)
            rec.close(L @ L.T, M, 'factor of %s %d jitter %s' % (name, n, jit), rtol=1e-12, atol=0)
            rec.close(U.T @ U, M, 'upper factor of %s %d jitter %s' % (name, n, jit), rtol=1e-12, atol=0)
            x = jittered_solve(a, i + 1., jitter=jit)
            rec.close(M @ x, i + 1., 'solve with %s %d jitter %s' % (name, n, jit), rtol=1e-9, atol=0, scale=n + np.abs(M).max() * np.abs(x).max())
            rec.ran()
            rec.outcome(name, n, jit)
