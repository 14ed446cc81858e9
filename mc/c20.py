"""C20: the iterated EKF against an independent Gauss-Newton iteration, for every option and measurement sequence over a
finite alphabet; plus stationarity of converged means."""
import itertools

import numpy as np

from . import models, ref
from . import c07
from .c07 import frozen, prior_of, shape, unchanged

ID = 'C20'
TITLE = 'the iterated EKF performs Gauss-Newton MAP updates'
LEVEL = 'exploration'
RULE = ('every (model, number of iterations, start time, control, prior, measurement sequence up to the length bound); '
        'non-trivial: distinct final distribution')
ASSUMPTIONS = ['Gauss-Newton iterates in information form with analytic Jacobians; relative tolerance 1e-6 in units of '
               'standard deviations',
               'a nonlinear run is left out (and counted) when a change of the data by 1e-9 changes the answer by more '
               'than 1e-6: there rounding decides the iterates']

OPTS = [[0.0, None, 'init'], [0.75, 0.7, 'init'], [-1.0, None, 'moment'], [2.0, -0.3, 'natural'], [0.0, 0.4, 'moment']]


def cases(tier):
    out = []
    q = tier == 'quick'
    for name, m in models.LIN().items():
        for it in (1, 2, 5):
            for opt in OPTS:
                for n in (1, 3) if q else (1, 2, 3, 4):
                    out.append({'kind': 'linear', 'model': name, 'iter': it, 'opt': opt, 'N': n, 'few': q})
    for name in models.NONLIN():
        for it in (1, 2, 3, 5) if q else (0, 1, 2, 3, 4, 5, 6, 8, 10, 20):
            for k, opt in enumerate(OPTS):
                for timevar in (False, True):
                    for n in (1, 2) if q else (1, 2, 3):
                        if q and n == 2 and (it == 3 or timevar and k not in (1, 3)):
                            continue
                        out.append({'kind': 'nonlinear', 'model': name, 'iter': it, 'opt': opt, 'N': n, 'timed': timevar})
    for name in models.NONLIN():
        for opt in OPTS[:4]:
            out.append({'kind': 'stationary', 'model': name, 'opt': opt})
    # long series
    for N in (30, 150) if q else (30, 100, 150, 400):
        for pattern in c07.PATTERNS if N < 150 else c07.PATTERNS[-1:]:
            for kind, names in (('linear', list(models.LIN()) + list(models.LONG())),) + ((('nonlinear', models.NONLIN()),) if N <= 100 else ()):
                for name in names:
                    out.append({'kind': kind, 'model': name, 'iter': 2, 'N': N, 'pattern': pattern, 'timed': False, 'opt': OPTS[0],
                                'few': True})
    for name in models.BENCH:
        for seed in range(2 if q else 10):
            for it in (1, 2, 5):
                out.append({'kind': 'bench', 'model': name, 'seed': seed, 'iter': it, 'N': 4 if q else 12})
    for name in models.NONLIN():
        out.append({'kind': 'default', 'model': name})
    return out


def sequences(m, case):
    if 'pattern' in case:
        return c07.sequences(m, case['N'], pattern=case['pattern'])
    return itertools.chain(itertools.product(range(2 if case.get('few') else 3), repeat=case['N']), c07.zeros(case['N']))


def run(case, rec):
    return globals()[case['kind']](case, rec)


def run_code(rec, m, system, ys, it, prior, t0, u, what):
    from Filters.KalmanFilter import IEKF
    f = IEKF(system, m.n)
    kw = {} if it is None else {'num_iter': it}
    if prior is not None:
        kw['prior_state'] = prior
    if t0:
        kw['t_zero'] = t0
    if u is not None:
        kw['u'] = u
    before = frozen(system, prior, ys)
    got = f(ys, **kw)
    unchanged(rec, before, frozen(system, prior, ys), what)
    rec.require(len(got) == len(ys), '%s: %d states for %d measurements' % (what, len(got), len(ys)))
    rec.ran()
    rec.trace()
    return got


def linear(case, rec):
    m = models.find(case['model'])
    t0, u, pk = case['opt']
    alpha = models.letters(m, 4)
    for idx in sequences(m, case):
        ys = [shape(alpha[i], j, m.p) for j, i in enumerate(idx)]
        prior, (pm, pP) = prior_of(m, pk)
        what = 'model %s, %d iterations, options %s, data %s' % (case['model'], case['iter'], case['opt'], idx)
        got = run_code(rec, m, m.system(), ys, case['iter'], prior, t0, u, what)
        raw = [alpha[i] for i in idx]
        if 'pattern' in case:
            want, _ = ref.filter_smoother(m, raw, ['TT'], ['TT'], t0, u, (pm, pP))
        else:
            want, _, _ = ref.joint_posteriors(m.steps(len(ys), t0, u), pm, pP, raw)
        for i, (g, w) in enumerate(zip(got, want)):
            rec.gauss(g, w[0], w[1], '%s: state %d (exact filter)' % (what, i + 1), rtol=1e-6)
            rec.step()
        rec.outcome(case['model'], case['opt'], idx, want[-1][0])


def stable(m, raw, it, t0, u, pr):
    try:
        a, _ = ref.iekf(m, raw, it, t0, u, pr)
        b, _ = ref.iekf(m, [y * (1 + 1e-9) + 1e-9 for y in raw], it, t0, u, pr)
    except np.linalg.LinAlgError:
        return None
    for (x, P), (y, S) in zip(a, b):
        sd = np.sqrt(np.abs(np.diag(P)))
        if not (np.all(np.abs(x - y) < 1e-6 * (sd + np.abs(x))) and np.all(np.abs(P - S) < 1e-6 * np.outer(sd, sd))):
            return None
        if not np.all(np.isfinite(x)) or np.linalg.eigvalsh(P)[0] <= 0:
            return None
    return a


def nonlinear(case, rec):
    m = models.NONLIN()[case['model']]
    if case['timed']:
        m = models.timed(case['model'])
    t0, u, pk = case['opt']
    alpha = models.letters(m, 4)
    for idx in sequences(m, case):
        raw = [.6 * alpha[i] for i in idx]
        prior, pr = prior_of(m, pk)
        want = stable(m, raw, case['iter'], t0, u, pr)
        if want is None:
            rec.count('unstable_skipped')
            continue
        what = 'model %s, %d iterations, options %s, data %s' % (m.name, case['iter'], case['opt'], idx)
        got = run_code(rec, m, m.system(), [shape(y, j, m.p) for j, y in enumerate(raw)], case['iter'], prior, t0, u, what)
        for i, (g, w) in enumerate(zip(got, want)):
            rec.gauss(g, w[0], w[1], '%s: state %d' % (what, i + 1), rtol=1e-6)
            rec.step()
        rec.outcome(m.name, case['iter'], case['opt'], idx, want[-1][0])


def stationary(case, rec):
    """many iterations on one measurement: the gradient of the log posterior vanishes at the mean"""
    m = models.NONLIN()[case['model']]
    t0, u, pk = case['opt']
    alpha = models.letters(m, 4)
    for k in range(3):
        for sc in (.2, .6, 1.):
            y = sc * alpha[k]
            prior, pr = prior_of(m, pk)
            a, preds = ref.iekf(m, [y], 40, t0, u, pr)
            b, _ = ref.iekf(m, [y], 41, t0, u, pr)
            if not np.max(np.abs(a[0][0] - b[0][0])) < 1e-10:
                rec.count('does_not_converge')
                continue
            got = run_code(rec, m, m.system(), [y], 40, prior, t0, u, 'model %s' % m.name)[0]
            pm, pc = preds[0]
            x = np.array(got.mean)

            def grad(z):
                return np.linalg.solve(pc, z - pm) - np.atleast_2d(m.h_jac(z, t0, u)).T @ np.linalg.solve(
                    m.R, y - np.atleast_1d(m.h(z, t0, u)))
            scale = np.max(np.abs(np.linalg.inv(got.cov))) * np.max(np.sqrt(np.diag(got.cov)))
            rec.close(grad(x), np.zeros(m.n), 'model %s, options %s, y=%s: gradient of minus the log posterior at the '
                      'converged mean %s' % (m.name, case['opt'], y, x), scale=scale, rtol=1e-6)
            H = np.atleast_2d(m.h_jac(x, t0, u))
            rec.close(np.linalg.inv(got.cov), np.linalg.inv(pc) + H.T @ np.linalg.solve(m.R, H),
                      'model %s: Gauss-Newton precision at the converged mean' % m.name, rtol=1e-6)
            rec.outcome(m.name, case['opt'], k, sc)


def bench(case, rec):
    s = models.bench(case['model'])
    m = models.as_model(s)
    np.random.seed(case['seed'])
    ys = [np.array(y) for _, y in s.simulate(case['N'])]
    raw = [np.ravel(y) for y in ys]
    want = stable(m, raw, case['iter'], 0.0, None, None)
    what = '%s, %d iterations, seed %d' % (case['model'], case['iter'], case['seed'])
    if want is None:
        rec.count('unstable_skipped')
        return
    got = run_code(rec, m, s, ys, case['iter'], None, 0.0, None, what)
    for i, (g, w) in enumerate(zip(got, want)):
        rec.gauss(g, w[0], w[1], '%s: state %d' % (what, i + 1), rtol=1e-4)
        rec.step()
    rec.outcome(what, want[-1][0])


def default(case, rec):
    """one object used repeatedly, with different settings in between; and the default number of iterations is five"""
    from Filters.KalmanFilter import IEKF
    m = models.NONLIN()[case['model']]
    ys = [.4 * y for y in models.letters(m)]
    f = IEKF(m.system(), m.n)
    runs = [{}, {'num_iter': 1}, {'num_iter': 7, 't_zero': 2.}, {'num_iter': 2, 'u': .3}, {'num_iter': 3, 'prior_state': 1}]
    for a, b in itertools.product(runs, repeat=2):
        for kw in (a, b):
            prior, pr = prior_of(m, 'moment') if 'prior_state' in kw else (None, None)
            got = f(ys, **(dict(kw, prior_state=prior) if prior is not None else kw))
            want = stable(m, ys, kw.get('num_iter', 5), kw.get('t_zero', 0.0), kw.get('u'), pr)
            if want is None:
                rec.count('unstable_skipped')
                continue
            for i, (g, w) in enumerate(zip(got, want)):
                rec.gauss(g, w[0], w[1], 'model %s, %s then %s: state %d' % (m.name, a, b, i + 1), rtol=1e-6)
        rec.ran()
        rec.outcome(m.name, a, b)
