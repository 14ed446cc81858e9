"""C06: the three projections on linear models against exact power-Bayes answers, in every short sequence of calls."""
import itertools

import numpy as np

from . import models, ref

ID = 'C06'
TITLE = 'estimator projections are exact power-Bayes updates'
LEVEL = 'model_checking'
RULE = ('every (model, transform, alpha) x every projection argument, and every sequence of up to 3 projections on one '
        'estimator, and every (alpha, noise scale) of a grid with repeated use; non-trivial: distinct projected distribution')
ASSUMPTIONS = ['exact answers computed in information form; relative tolerance 1e-6 in units of standard deviations']

ALPHAS = [1, .5, .1, .8, 2.0, 1.0]
TRS = [['TT'], ['UT', 1, 2, 1], ['UT', .5, 0, 2], ['UT', 1, 2, 3]]


def cases(tier):
    out = []
    names = list(models.LIN())
    for name in names:
        for tr in TRS:
            for a in ALPHAS:
                out.append({'kind': 'single', 'model': name, 'trans': tr, 'meas': TRS[(TRS.index(tr) + 1) % 4], 'alpha': a})
    for name in ('1', '2rot', '2tv', '2o', '3') + (() if tier == 'quick' else ('1big', '3tv', '4', '5')):
        for tr in TRS[:2]:
            for a in (1, .5, .3):
                for first in range(6):
                    out.append({'kind': 'sequence', 'model': name, 'trans': tr, 'alpha': a, 'first': first,
                                'length': 3 if tier == 'quick' else 4})
    for name in ('1', '2rot', '2tv', '2o', '3'):
        for tr in TRS[:2]:
            for a in (1, .5, .3, 2.):
                out.append({'kind': 'fault', 'model': name, 'trans': tr, 'alpha': a, 'length': 1 if tier == 'quick' else 2})
    for name in ('1', '2rot', '3'):
        for tr in TRS[:2]:
            out.append({'kind': 'noises', 'model': name, 'trans': tr, 'repeat': 3 if tier == 'quick' else 30})
            out.append({'kind': 'settings', 'model': name, 'trans': tr, 'length': 2 if tier == 'quick' else 3})
    return out


FAULTS = ('LinAlgError', 'LinAlgWarning', 'nan mean', 'nan cov', 'nan cross', 'inf cov', 'negative', 'minus noise', 'zero')


def dists(m):
    """three distributions over the state, in different representations"""
    from StateModel import Gaussian
    n = m.n
    P1, P2 = m.P0, (np.eye(n) * .3 + .1) * np.outer(m.units * np.ones(n), m.units * np.ones(n))
    L2 = np.linalg.inv(P2)
    d = [(lambda: Gaussian(m.m0.copy(), P1.copy()), m.m0, P1),
         (lambda: Gaussian(precision_mat=L2.copy(), shift_vec=L2 @ (m.m0 + m.units)), m.m0 + m.units, P2),
         (lambda: Gaussian(m.m0 - 2. * m.units, P1 * 3), m.m0 - 2. * m.units, P1 * 3)]
    return d


def message(m, j, alpha, t):
    """(factory, mean, covariance) of the j-th message from the next node; 'w' has a negative precision: the smoothed
    next state is wider than its prediction"""
    from StateModel import Gaussian
    if j != 'w':
        return dists(m)[j]
    A = m.lin[0](t)
    d = dists(m)
    L = -.4 / alpha * np.linalg.inv(A @ (d[2][2] + d[1][2]) @ A.T + m.Q / alpha)
    mean = m.m0 + m.units
    return (lambda: Gaussian(precision_mat=L.copy(), shift_vec=L @ mean)), mean, np.linalg.inv(L)


def exact(m, what, i, j, alpha, t, u, y):
    """exact answer of projection `what` for state i (and cavity j)"""
    _, mean, P = dists(m)[i]
    A, b, C, d = m.lin
    A, b = A(t), b(t, u)
    if what == 'trans':
        return A @ mean + b, (A @ P @ A.T + m.Q) / alpha
    if what == 'meas':
        L = np.linalg.inv(P) + alpha * C.T @ np.linalg.solve(m.R, C)
        return np.linalg.solve(L, np.linalg.solve(P, mean) + alpha * C.T @ np.linalg.solve(m.R, y - d)), np.linalg.inv(L)
    if j is None:                            # vacuous message: nothing is learnt
        return mean, P
    _, mj, Pj = message(m, j, alpha, t)
    S = (m.Q + Pj) / alpha                   # N(x'; Ax+b, Q)^alpha * N(x'; mj, Pj)^alpha, x' integrated out
    L = np.linalg.inv(P) + A.T @ np.linalg.solve(S, A)
    return np.linalg.solve(L, np.linalg.solve(P, mean) + A.T @ np.linalg.solve(S, mj - b)), np.linalg.inv(L)


def call(m, est, what, i, j, alpha, t, u, y, with_next=True):
    from functools import partial
    from StateModel import Gaussian
    s = dists(m)[i][0]()
    f = partial(m._trans, t=t, u=u)
    if what == 'trans':
        return est.proj_trans(f, s), [s], dists(m)[i]
    if what == 'meas':
        return est.proj_meas(m._meas, s, y), [s], dists(m)[i]
    cav = message(m, j, alpha, t)[0]() if j is not None else Gaussian.as_factor(m.n)
    nxt = None
    if with_next:
        # the node's own marginal: predictive distribution times the backward cavity
        A, b, _, _ = m.lin
        _, mean, P = dists(m)[i]
        pm, pc = A(t) @ mean + b(t, u), A(t) @ P @ A(t).T + m.Q
        L = np.linalg.inv(pc)
        e = L @ pm
        if j is not None:
            _, mj, Pj = message(m, j, alpha, t)
            L2 = np.linalg.inv(Pj)
            L, e = L + L2, e + L2 @ mj
        nxt = Gaussian(precision_mat=L, shift_vec=e)
    return est.proj_back(f, s, cav, next_state=nxt), [s, cav] + ([nxt] if nxt is not None else []), dists(m)[i]


def run(case, rec):
    return globals()[case['kind']](case, rec)


def arguments(m):
    ys = models.data(m, 2)
    out = []
    for i in range(3):
        for t, u in ((0.0, 0.0), (1.5, 1.0)):
            out.append(('trans', i, None, t, u, ys[0], True))
            for j in (None, 0, 1, 'w'):
                for nx in (True, False):
                    out.append(('back', i, j, t, u, ys[0], nx))
        for y in ys:
            out.append(('meas', i, None, 0.0, 0.0, y, True))
            if m.p == 1:
                out.append(('meas', i, None, 0.0, 0.0, np.array(y[0]), True))
    return out


def gparams(s):
    return [np.array(s.precision), np.array(s.shift)]


def single(case, rec):
    from MomentMatching.Estimator import Estimator
    m, a = models.LIN()[case['model']], case['alpha']
    Q, R = m.Q.copy(), m.R.copy()
    est = Estimator(trans_map=models.make_transform(case['trans'], m.n), meas_map=models.make_transform(case['meas'], m.n),
                    trans_noise=Q, meas_noise=R, power=a)
    for what, i, j, t, u, y, nx in arguments(m):
        y0 = np.array(y)
        r, used, _ = call(m, est, what, i, j, a, t, u, y, nx)
        want = exact(m, what, i, j, a, t, u, np.ravel(y))
        label = '%s(state %d, message %s, t=%s) of model %s with %s, alpha=%s' % (what, i, j, t, case['model'], case['trans'], a)
        rec.gauss(r, want[0], want[1], label, rtol=1e-6, atol=1e-7)
        for s, (k, ref_) in zip(used[:2], ((i, dists(m)[i]), (j, message(m, j, a, t) if j is not None else None))):
            if ref_ is not None:
                f = ref_[0]()
                same = (np.array_equal(f.precision, s.precision) and np.array_equal(f.shift, s.shift) if k == 'w' else
                        np.array_equal(f.mean, s.mean) and np.array_equal(f.cov, s.cov))
                rec.require(same, label + ': an argument was modified')
        rec.require(np.array_equal(Q, m.Q) and np.array_equal(R, m.R), label + ': a noise covariance was modified')
        rec.require(np.array_equal(np.array(y), y0), label + ': the measurement was modified')
        rec.ran()
        rec.trace()
        rec.step()
        rec.outcome(*want)
        rec.state(case['model'], what, i, j, t, str(y0), a)
    vacuous(rec, m, est, a, case)
    # defaults: no power given means standard EP
    est = Estimator(models.make_transform(case['trans'], m.n), models.make_transform(case['meas'], m.n), m.Q.copy(), m.R.copy())
    rec.require(est.power == 1 and est.damping == 1, 'the default estimator is not standard undamped EP')


def vacuous(rec, m, est, a, case):
    """a measurement of a node of which nothing is known yet, and one that says nothing"""
    from StateModel import Gaussian
    C, d = m.lin[2:]
    for make, mean, P in dists(m):
        for y in models.data(m, 2):
            rec.gauss(est.proj_meas(lambda x: 0. * m._meas(x), make(), y), mean, P,
                      'uninformative measurement, model %s with %s, alpha=%s' % (case['model'], case['meas'], a), rtol=1e-6, atol=1e-7)
            rec.step()
    if m.p != m.n or np.linalg.cond(C) > 10 or np.linalg.eigvalsh(m.R)[0] < .05 or np.max(m.units) > 1:
        return
    inv = np.linalg.inv(C)
    for y in models.data(m, 2):
        got = est.proj_meas(m._meas, Gaussian.as_marginal(m.n), y)
        rec.gauss(got, inv @ (y - d), inv @ m.R @ inv.T / a, 'measurement of a vacuous state, model %s with %s, alpha=%s'
                  % (case['model'], case['meas'], a), rtol=1e-3, atol=1e-4)
        rec.count('vacuous_states')
        rec.step()


def fault(case, rec):
    """every sequence of projections that fail numerically somewhere; afterwards the estimator answers as before"""
    from MomentMatching.Estimator import Estimator
    from scipy.linalg import LinAlgWarning
    m, a = models.LIN()[case['model']], case['alpha']
    y = models.data(m, 2)
    ops = [('trans', 0, None, 0.0, 0.0, y[0], True), ('meas', 1, None, 0.0, 0.0, y[1], True), ('back', 0, 1, 1.0, 1.0, y[0], True),
           ('back', 2, 0, 0.0, 0.0, y[0], False)]
    want = [exact(m, w, i, j, a, t, u, yy) for w, i, j, t, u, yy, nx in ops]
    for seq in itertools.product(itertools.product(FAULTS, range(len(ops))), repeat=case['length']):
        Q, R = m.Q.copy(), m.R.copy()
        ctl = [None]

        def faulty(real):
            def transform(func, state):
                mean, cov, cross = real(func, state)
                f = ctl[0]
                if f == 'LinAlgError':
                    raise np.linalg.LinAlgError('injected')
                if f == 'LinAlgWarning':
                    raise LinAlgWarning('injected')
                if f == 'nan mean':
                    mean = mean * np.nan
                elif f == 'nan cov':
                    cov = cov * np.nan
                elif f == 'nan cross':
                    cross = cross * np.nan
                elif f == 'inf cov':
                    cov = cov + np.inf
                elif f == 'negative':
                    cov = -cov - 100 * np.eye(len(cov))
                elif f == 'minus noise':
                    cov = -(m.Q if func is not m._meas else m.R) / a
                elif f == 'zero':
                    cov = cov * 0
                return mean, cov, cross
            return transform
        est = Estimator(trans_map=faulty(models.make_transform(case['trans'], m.n)),
                        meas_map=faulty(models.make_transform(case['trans'], m.n)), trans_noise=Q, meas_noise=R, power=a)
        for f, k in seq:
            ctl[0] = f
            w, i, j, t, u, yy, nx = ops[k]
            try:
                with np.errstate(all='ignore'):
                    call(m, est, w, i, j, a, t, u, yy.copy(), nx)
            except (np.linalg.LinAlgError, LinAlgWarning, ValueError):
                rec.count('failed_projections')
            rec.step()
        ctl[0] = None
        what = 'after %s on one estimator (model %s, alpha %s)' % ([(f, ops[k][0]) for f, k in seq], case['model'], a)
        for (w, i, j, t, u, yy, nx), e in zip(ops, want):
            g = call(m, est, w, i, j, a, t, u, yy.copy(), nx)[0]
            rec.gauss(g, e[0], e[1], '%s %s' % (w, what), rtol=1e-6, atol=1e-7)
        rec.require(np.array_equal(Q, m.Q) and np.array_equal(R, m.R), 'a noise covariance was modified: ' + what)
        rec.ran()
        rec.trace()
        rec.state(case['model'], case['trans'], a, seq)
    for e in want:
        rec.outcome(*e)


def sequence(case, rec):
    """every sequence of calls on one estimator; each answer must be the exact one, earlier answers must survive"""
    m, a = models.LIN()[case['model']], case['alpha']
    y = models.data(m, 2)
    alpha = [('trans', 0, None, 0.0, 0.0, y[0], True), ('meas', 1, None, 0.0, 0.0, y[1], True),
             ('back', 0, 1, 1.0, 1.0, y[0], True), ('trans', 1, None, 1.5, -1.0, y[0], True),
             ('back', 2, 0, 0.0, 0.0, y[0], False), ('meas', 2, None, 0.0, 0.0, y[0], True)]
    want = [exact(m, w, i, j, a, t, u, yy) for w, i, j, t, u, yy, nx in alpha]
    for rest in itertools.product(range(len(alpha)), repeat=case['length'] - 1):
        seq = (case['first'],) + rest
        Q, R = m.Q.copy(), m.R.copy()
        from MomentMatching.Estimator import Estimator
        # one transform object for both roles, as users often pass
        tr = models.make_transform(case['trans'], m.n)
        est = Estimator(trans_map=tr, meas_map=tr, trans_noise=Q, meas_noise=R, power=a)
        got = []
        for k in seq:
            w, i, j, t, u, yy, nx = alpha[k]
            got.append(call(m, est, w, i, j, a, t, u, yy.copy(), nx)[0])
            rec.step()
        for k, g in zip(seq, got):
            rec.gauss(g, want[k][0], want[k][1], '%s in the sequence %s on one estimator (model %s, alpha %s)'
                      % (alpha[k][:4], [alpha[q][:4] for q in seq], case['model'], a), rtol=1e-6, atol=1e-7)
        rec.require(np.array_equal(Q, m.Q) and np.array_equal(R, m.R), 'a noise covariance was modified by %s' % (seq,))
        rec.ran()
        rec.trace()
        rec.state(case['model'], case['trans'], a, seq)
    for w in want:
        rec.outcome(*w)


def settings(case, rec):
    """every sequence of settings (power, noises) given to one estimator: each projection honours the present ones"""
    from copy import copy
    from MomentMatching.Estimator import Estimator
    m = models.LIN()[case['model']]
    y = models.data(m, 2)
    ops = [('trans', 0, None, 0.0, 0.0, y[0], True), ('meas', 1, None, 0.0, 0.0, y[1], True), ('back', 2, 0, 0.0, 0.0, y[0], False)]
    values = [(1, 1., 1.), (.5, 1., 1.), (2., 3., 1.), (.5, 1., .25)]
    for seq in itertools.product(values, repeat=case['length']):
        est = None
        for a, q, r in seq:
            mm = copy(m)
            mm.Q, mm.R = m.Q * q, m.R * r
            if est is None:
                est = Estimator(trans_map=models.make_transform(case['trans'], m.n), meas_map=models.make_transform(case['trans'], m.n),
                                trans_noise=mm.Q.copy(), meas_noise=mm.R.copy(), power=a)
            else:
                est.power, est.transition_noise, est.measurement_noise = a, mm.Q.copy(), mm.R.copy()
            for w, i, j, t, u, yy, nx in ops:
                e = exact(mm, w, i, j, a, t, u, yy)
                rec.gauss(call(mm, est, w, i, j, a, t, u, yy.copy(), nx)[0], e[0], e[1],
                          '%s with one estimator given the settings (power, noise factors) %s in turn (model %s), at %s'
                          % (w, list(seq), case['model'], [a, q, r]), rtol=1e-6, atol=1e-7)
                rec.step()
                rec.outcome(*e)
        rec.ran()
        rec.trace()
        rec.state('settings', case['model'], case['trans'], seq)


def noises(case, rec):
    """every (alpha, noise scale) of a grid: the noise covariances keep every digit however often they are used"""
    from MomentMatching.Estimator import Estimator
    m = models.LIN()[case['model']]
    y = models.data(m, 2)
    ops = [('trans', 0, None, 0.0, 0.0, y[0], True), ('meas', 1, None, 0.0, 0.0, y[1], True), ('back', 2, 0, 0.0, 0.0, y[0], False)]
    scales = (.1, .2, .3, .7, 1.1, 1.3, 1.7)
    for k in list(range(1, 10)) + [11, 13, 17, 20]:
        for q in scales:
            Q, R = m.Q * q, m.R * q
            Q0, R0 = Q.copy(), R.copy()
            est = Estimator(trans_map=models.make_transform(case['trans'], m.n), meas_map=models.make_transform(case['trans'], m.n),
                            trans_noise=Q, meas_noise=R, power=k / 10)
            for _ in range(case['repeat']):
                for w, i, j, t, u, yy, nx in ops:
                    call(m, est, w, i, j, k / 10, t, u, yy.copy(), nx)
                    rec.step()
            rec.require(np.array_equal(Q, Q0) and np.array_equal(R, R0) and np.array_equal(est.transition_noise, Q0)
                        and np.array_equal(est.measurement_noise, R0),
                        'the noise of model %s changed by %s and %s with alpha=%s' % (case['model'], Q - Q0, R - R0, k / 10))
            rec.ran()
            rec.state('noises', case['model'], k, q)
        rec.outcome(k)
    rec.trace()
