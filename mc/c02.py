"""C02: every sequence of observations of a Gaussian state, compared with the answers of a fresh state."""
import itertools

import numpy as np

from .c01 import inverse, spd, vec

ID = 'C02'
TITLE = 'value semantics of Gaussian states'
LEVEL = 'model_checking'
RULE = ('all sequences of observers up to the stated length on every kind of state and dimension; a sequence is '
        'non-trivial when it ends in a distinct (state kind, answers) record')
ASSUMPTIONS = ['answers are compared with those of a freshly built equal state to relative 1e-9; arrays handed to the '
               'constructor and operands are compared bitwise',
               'precisions whose trace is below 1e-10 count as vacuous by design and are not used as improper examples']


# ------------------------------------------------------------------ the states
def kinds(n):
    """name -> builder returning (state, [arrays it was built from], [operand states], proper?)"""
    from StateModel import Gaussian
    from StateModel.Gaussian import GaussianFactor

    def mom(k, s=1.):
        def b():
            m, P = vec(n, k).copy(), spd(n, k) * s
            return Gaussian(m, P), [m, P], [], True
        return b

    def nat(k, s=1.):
        def b():
            L, e = spd(n, k) * s, vec(n, k + 1).copy()
            return Gaussian(precision_mat=L, shift_vec=e), [L, e], [], True
        return b

    def cls(f):
        def b():
            return f(), [], [], True
        return b

    def fromnat():
        L, e = spd(n, 4), vec(n, 3).copy()
        return Gaussian.from_natural(L, e), [L, e], [], True

    def prod():
        a, b = Gaussian(vec(n, 1).copy(), spd(n, 1)), Gaussian(precision_mat=spd(n, 2), shift_vec=vec(n, 3).copy())
        return a * b, [], [a, b], True

    def quot():
        a, b = Gaussian(precision_mat=spd(n, 2) + 3 * spd(n, 1), shift_vec=vec(n, 3).copy()), \
            Gaussian(precision_mat=spd(n, 1), shift_vec=vec(n, 2).copy())
        return a / b, [], [a, b], True

    def power():
        a = Gaussian(vec(n, 2).copy(), spd(n, 3))
        return a ** .5, [], [a], True

    def copied(how):
        def b():
            a, arrs, _, ok = (mom(2) if how == 'm' else nat(2))()
            return a.copy(), arrs, [a], ok
        return b

    def neg():
        L, e = -spd(n, 2), vec(n, 1).copy()
        return Gaussian(precision_mat=L, shift_vec=e), [L, e], [], False

    def divneg():
        a, b = Gaussian(vec(n, 1).copy(), spd(n, 2) * 4), Gaussian(vec(n, 2).copy(), spd(n, 2))
        return a / b, [], [a, b], False

    def degenerate(P):
        def b():
            m, C = vec(n, 1).copy(), P.copy()
            return Gaussian(m, C), [m, C], [], None
        return b

    one = np.arange(1., n + 1)
    return {'singular': degenerate(np.outer(one, one) * (n > 1)), 'nearly': degenerate(np.outer(one, one) + 1e-13 * np.eye(n)),
            'moment': mom(1), 'natural': nat(1), 'factor': cls(lambda: Gaussian.as_factor(n)),
            'marginal': cls(lambda: Gaussian.as_marginal(n)), 'gfactor': cls(lambda: GaussianFactor(n)),
            'product': prod, 'quotient': quot, 'power': power, 'copy_m': copied('m'), 'copy_n': copied('n'),
            'fromnat': fromnat, 'sharp': mom(3, 1e-6), 'wide': nat(3, 1e-4), 'negative': neg, 'quotneg': divneg}


KINDS = ['moment', 'natural', 'factor', 'marginal', 'gfactor', 'product', 'quotient', 'power', 'copy_m', 'copy_n',
         'fromnat', 'sharp', 'wide', 'negative', 'quotneg', 'singular', 'nearly']


# ------------------------------------------------------------------ the observers
def gauss_of(s):
    return (np.array(s.precision), np.array(s.shift))


def observers(n):
    from StateModel import Gaussian
    x1, x2 = vec(n, 6), vec(n, 2)[None, :]

    def other():
        return Gaussian(vec(n, 5).copy(), spd(n, 5))

    def use(f):
        def g(s):
            o = other()
            r = gauss_of(f(s, o))
            fresh = other()
            if not (np.array_equal(o.mean, fresh.mean) and np.array_equal(o.cov, fresh.cov)):
                raise AssertionError('the other operand was modified')
            return r
        return g

    def sample(s):
        np.random.seed(5)
        return np.array(s.sample(3))

    def copied(s):
        c = s.copy()
        if c is s:
            raise AssertionError('copy() returned the state itself')
        return np.array(c.mean), np.array(c.cov), c.dim

    def chol(s):
        return np.array(s.chol_cov)

    return {'mean': lambda s: np.array(s.mean), 'cov': lambda s: np.array(s.cov),
            'precision': lambda s: np.array(s.precision), 'shift': lambda s: np.array(s.shift),
            'dim': lambda s: s.dim, 'chol': chol, 'nll': lambda s: np.array(s.nll(x1)),
            'err': lambda s: np.array(s.squared_error(x2)), 'sample': sample,
            'eq': lambda s: (s == other(), other() == s, s == s), 'show': lambda s: (len(repr(s)) > 0, str(s)),
            'copy': copied, 'mul': use(lambda s, o: s * o), 'rmul': use(lambda s, o: o * s),
            'div': use(lambda s, o: s / o), 'rdiv': use(lambda s, o: o / s), 'pow': lambda s: gauss_of(s ** .3),
            'self': lambda s: gauss_of((s * s) / s)}


OBS = ['mean', 'cov', 'precision', 'shift', 'dim', 'chol', 'nll', 'err', 'sample', 'eq', 'show', 'copy', 'mul', 'rmul',
       'div', 'rdiv', 'pow', 'self']
SHORT = ['mean', 'cov', 'precision', 'shift', 'chol', 'copy', 'mul', 'div', 'pow', 'self', 'nll']


def cases(tier):
    out = []
    dims = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 5)
    for n in dims:
        for k in KINDS:
            out.append({'kind': 'seq', 'dim': n, 'state': k, 'obs': OBS, 'length': 2})
            for first in SHORT:
                out.append({'kind': 'seq', 'dim': n, 'state': k, 'obs': SHORT, 'first': first,
                            'length': 3 if tier == 'quick' else 4})
    for n in (1, 2, 3, 4, 6, 8):
        out.append({'kind': 'duality', 'dim': n})
        out.append({'kind': 'improper', 'dim': n})
    for n in (2, 3, 5, 7, 8, 10, 12):
        out.append({'kind': 'spread', 'dim': n})
    return out


def ask(s, name, obs):
    """answer, or the class of exception (improper states may refuse)"""
    try:
        return obs[name](s)
    except AssertionError:
        raise
    except Exception as e:
        return 'raised'


def equal(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        b = np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        return bool(np.all(np.abs(a - b) <= 1e-9 * np.max(np.abs(b)) + 1e-13))
    return a == b


def run(case, rec):
    if case['kind'] == 'duality':
        return duality(case, rec)
    if case['kind'] == 'spread':
        return spread(case, rec)
    if case['kind'] == 'improper':
        return improper(case, rec)
    n = case['dim']
    build = kinds(n)[case['state']]
    obs = observers(n)
    proper = build()[3]
    fresh = {o: ask(build()[0], o, obs) for o in case['obs']}
    if proper:
        for o, a in fresh.items():
            rec.require(not isinstance(a, str) or o == 'rdiv', '%s of a proper %s state failed' % (o, case['state']))
    check_fresh(rec, case, fresh, build)
    seqs = itertools.product(case['obs'], repeat=case['length'] - (1 if 'first' in case else 0))
    for seq in seqs:
        if 'first' in case:
            seq = (case['first'],) + seq
        s, arrays, operands, _ = build()
        before = [a.copy() for a in arrays]
        for i, o in enumerate(seq):
            a = ask(s, o, obs)
            rec.step()
            if not equal(a, fresh[o]) and o not in ('str',):
                rec.fail('dimension %d, %s state: %s after %s gave %r, a fresh state gives %r'
                         % (n, case['state'], o, list(seq[:i]), a, fresh[o]),
                         case={'kind': 'seq', 'dim': n, 'state': case['state'], 'obs': sorted(set(seq)), 'length': len(seq)})
        for a, b in zip(arrays, before):
            rec.require(np.array_equal(a, b), '%s changed an array the state was built from: %r -> %r' % (list(seq), b, a))
        for op, want in zip(operands, build()[2]):
            for attr in ('mean', 'cov', 'precision', 'shift'):
                rec.close(getattr(op, attr), getattr(want, attr), 'operand of %s state after %s: %s'
                          % (case['state'], list(seq), attr), rtol=1e-9)
        rec.ran()
        rec.trace()
    rec.state(n, case['state'])
    for o in case['obs']:
        rec.outcome(n, case['state'], o, fresh[o] if isinstance(fresh[o], (str, tuple, int)) else fresh[o])
        rec.state(n, case['state'], o)


def check_fresh(rec, case, fresh, build):
    """the answers themselves are right"""
    n = case['dim']
    s = build()[0]
    if build()[3] is None:                # a singular covariance: only that no answer depends on the others
        return
    if not build()[3]:
        c = ask(s, 'cov', observers(n))
        if not isinstance(c, str) and np.all(np.isfinite(c)):
            rec.require(np.linalg.eigvalsh((c + c.T) / 2)[0] < 0,
                        'the negative definite precision of a %s state is reported as the proper covariance %r'
                        % (case['state'], c))
        return
    if 'chol' in fresh and 'cov' in fresh:
        C, L = fresh['cov'], fresh['chol']
        rec.close(L @ L.T, C, '%s: chol_cov @ chol_cov.T' % case['state'], rtol=1e-9)
        rec.require(np.max(np.abs(np.triu(L, 1))) == 0 if n > 1 else True, 'chol_cov is not lower triangular')
    if 'dim' in fresh:
        rec.require(fresh['dim'] == n, 'dim is %r instead of %d' % (fresh['dim'], n))
    if 'eq' in fresh:
        rec.require(bool(fresh['eq'][2]) and not fresh['eq'][0] and not fresh['eq'][1],
                    '%s: comparison gives %r' % (case['state'], fresh['eq']))
    if 'copy' in fresh and 'mean' in fresh and 'cov' in fresh:
        rec.close(fresh['copy'][0], fresh['mean'], 'mean of the copy', rtol=1e-9)
        rec.close(fresh['copy'][1], fresh['cov'], 'covariance of the copy', rtol=1e-9)
    if case['state'] in ('factor', 'gfactor'):
        if 'precision' in fresh:
            rec.close(fresh['precision'], np.zeros((n, n)), 'precision of a vacuous factor')
            rec.close(fresh['shift'], np.zeros(n), 'shift of a vacuous factor')
        rec.require(np.all(np.diag(fresh['cov']) >= 1e9), 'a vacuous factor reports a small covariance')
    elif 'precision' in fresh and 'cov' in fresh:
        C, L = fresh['cov'], fresh['precision']
        k = np.linalg.cond(C)
        rec.close(L @ C, np.eye(n), '%s: precision @ cov' % case['state'], rtol=1e-10 * k)
        rec.close(L @ fresh['mean'], fresh['shift'], '%s: precision @ mean' % case['state'], rtol=1e-8,
                  scale=np.max(np.abs(L)) * np.max(np.abs(fresh['mean'])))


def duality(case, rec):
    """moment <-> natural <-> moment for all small SPD matrices and scales; products rebuilt from either side"""
    from StateModel import Gaussian
    n = case['dim']
    for k in range(6):
        for s in (1e-8, 1e-3, 1., 1e3, 1e8):
            P, m = spd(n, k) * s, vec(n, k) * (1 + k)
            L = inverse(P)
            a = Gaussian(m.copy(), P.copy())
            rec.close(a.precision, L, 'precision from covariance', rtol=1e-9 * np.linalg.cond(P))
            rec.close(a.shift, L @ m, 'shift from mean', rtol=1e-8, scale=np.max(np.abs(L)) * (1e-9 + np.max(np.abs(m))))
            b = Gaussian(precision_mat=L.copy(), shift_vec=L @ m)
            if np.trace(np.abs(L)) > 1e-9:
                rec.close(b.cov, P, 'covariance from precision', rtol=1e-9 * np.linalg.cond(P))
                rec.close(b.mean, m, 'mean from shift', rtol=1e-8 * np.linalg.cond(P))
                rec.require((a == b) and (b == a) or s < 1e-3 or s > 1e3, 'equal states compare as different')
            # an unequal state compares as different
            c = Gaussian(m + 1., P.copy())
            d = Gaussian(m.copy(), 2 * P)
            rec.require(not (a == c), 'states with different means compare equal')
            if s >= 1:
                rec.require(not (a == d), 'states with different covariances compare equal')
            rec.ran(3)
            rec.trace(3)
            rec.step(3)
            if rec.state(n, P, m):
                rec.outcome(n, P, m)


def spread(case, rec):
    """many dimensions with very different scales: both parametrisations of products, quotients and powers, read from either"""
    from StateModel import Gaussian
    n = case['dim']
    tol = 1e-5
    for a, k, flip in itertools.product((0., .5, 1., 1.7), range(3), (1, -1)):
        d = 10. ** np.linspace(-flip * a, flip * a, n)
        P, m = spd(n, k) * np.outer(d, d), vec(n, k + 1) * d
        P = (P + P.T) / 2
        L = inverse(P)
        e = L @ m
        L2 = inverse(spd(n, k + 1) * np.outer(d, d))
        L2 = (L2 + L2.T) / 2
        other = Gaussian(precision_mat=L2.copy(), shift_vec=L2 @ d)
        for name, g in (('moment', Gaussian(m.copy(), P.copy())), ('natural', Gaussian(precision_mat=L.copy(), shift_vec=e.copy())),
                        ('product', Gaussian(m.copy(), P.copy()) ** .25 * Gaussian(precision_mat=.75 * L, shift_vec=.75 * e)),
                        ('quotient', Gaussian(precision_mat=L + L2, shift_vec=e + L2 @ d) / other), ('power', Gaussian(m.copy(), 3 * P) ** 3)):
            what = '%s state of dimension %d with standard deviations %s: ' % (name, n, np.round(np.sqrt(np.diag(P)), 4).tolist())
            big, bigL = np.max(np.abs(P)), np.max(np.abs(L))
            rec.close(g.cov, P, what + 'covariance', rtol=tol)
            rec.close(g.mean, m, what + 'mean', rtol=tol, scale=big * np.max(np.abs(e)) * .01 + np.max(np.abs(m)))
            rec.close(g.precision, L, what + 'precision', rtol=tol)
            rec.close(g.shift, e, what + 'shift', rtol=tol, scale=bigL * np.max(np.abs(m)) * .01 + np.max(np.abs(e)))
            rec.ran()
            rec.trace()
            rec.step()
        if rec.state(n, P, m):
            rec.outcome(n, P, m)


def improper(case, rec):
    """negative definite and indefinite precisions of every scale never show a positive definite covariance"""
    from StateModel import Gaussian
    n = case['dim']
    for k in range(8):
        for s in (1e-6, 1e-3, 1., 1e3, 1e6):
            mats = [-spd(n, k) * s]
            if n > 1:
                w, V = np.linalg.eigh(spd(n, k))
                for j in range(n):
                    w2 = w.copy()
                    w2[j] = -w2[j]
                    mats.append((V * w2) @ V.T * s)
            for M in mats:
                M = (M + M.T) / 2
                for mk in (lambda: Gaussian(precision_mat=M.copy(), shift_vec=vec(n, k)),
                           lambda: Gaussian(precision_mat=np.zeros((n, n)), shift_vec=np.zeros(n)) / Gaussian(precision_mat=-M, shift_vec=vec(n, k))):
                    g = mk()
                    rec.ran()
                    rec.trace()
                    rec.step()
                    try:
                        c, m = np.array(g.cov), np.array(g.mean)
                    except Exception:
                        rec.count('refused')
                        continue
                    c2 = np.array(g.cov)
                    rec.require(np.array_equal(c, c2), 'reading cov twice gives different answers')
                    if np.all(np.isfinite(c)):
                        w = np.linalg.eigvalsh((c + c.T) / 2)
                        rec.require(w[0] < 0, 'precision %r (not positive definite) is reported with the positive '
                                    'definite covariance %r' % (M.tolist(), c.tolist()))
                    rec.close(g.precision, M, 'precision after reading an improper covariance', rtol=1e-12)
                    if rec.state(n, M):
                        rec.outcome(n, M)
