"""C21: the iterated EKS against Gauss-Newton on the whole trajectory (each iteration one dense linear problem)."""
import itertools

import numpy as np

from . import models, ref
from . import c07
from .c07 import frozen, shape, unchanged

ID = 'C21'
TITLE = 'the iterated EKS is Gauss-Newton on the trajectory and finds the MAP path'
LEVEL = 'exploration'
RULE = ('every (model, number of iterations, measurement sequence up to the length bound), and every sequence of two or '
        'three runs of one object; non-trivial: distinct smoothed path')
ASSUMPTIONS = ['each reference iteration conditions the joint Gaussian of the model linearised at the previous path, with '
               'analytic Jacobians; relative tolerance 1e-6 in units of standard deviations',
               'a run is left out (and counted) when a change of the data by 1e-9 changes the answer by more than 1e-6']


def cases(tier):
    out = []
    q = tier == 'quick'
    for name, m in models.LIN().items():
        for it in (1, 2, 4):
            for n in (1, 2, 3) if q else (1, 2, 3, 4):
                out.append({'kind': 'linear', 'model': name, 'iter': it, 'N': n, 'few': q})
    for name in models.NONLIN():
        for it in (1, 2, 3, 5) if q else (1, 2, 3, 4, 5, 6, 8, 12):
            for n in (1, 2, 3) if q else (1, 2, 3, 4):
                out.append({'kind': 'nonlinear', 'model': name, 'iter': it, 'N': n, 'few': q and n == 3})
    for name in models.NONLIN():
        for it in (1, 2, 4):
            for n in (1, 2) if q else (1, 2, 3):
                out.append({'kind': 'nonlinear', 'model': name, 'iter': it, 'N': n, 'few': False, 'timed': True})
    for name in models.NONLIN():
        for n in (1, 2, 4):
            out.append({'kind': 'stationary', 'model': name, 'N': n})
        out.append({'kind': 'again', 'model': name})
    # long series
    for N in (30, 150) if q else (30, 100, 150, 400):
        for pattern in c07.PATTERNS if N < 150 else c07.PATTERNS[-1:]:
            for kind, names in (('linear', list(models.LIN()) + list(models.LONG())),) + ((('nonlinear', models.NONLIN()),) if N <= 100 else ()):
                for name in names:
                    out.append({'kind': kind, 'model': name, 'iter': 2, 'N': N, 'pattern': pattern, 'timed': False, 'few': True})
    for name in models.BENCH:
        for seed in range(2 if q else 10):
            for it in (1, 2, 4):
                out.append({'kind': 'bench', 'model': name, 'seed': seed, 'iter': it, 'N': 4 if q else 12})
    return out


def sequences(m, case):
    if 'pattern' in case:
        return c07.sequences(m, case['N'], pattern=case['pattern'])
    return itertools.chain(itertools.product(range(2 if case.get('few') else 3), repeat=case['N']), c07.zeros(case['N']))


def run(case, rec):
    return globals()[case['kind']](case, rec)


def run_code(rec, m, system, ys, it, what):
    from Filters.KalmanFilter import IEKS
    f = IEKS(system, m.n)
    before = frozen(system, None, ys)
    got = f(ys) if it is None else f(ys, num_iter=it)
    unchanged(rec, before, frozen(system, None, ys), what)
    rec.require(len(got) == len(ys), '%s: %d states for %d measurements' % (what, len(got), len(ys)))
    rec.ran()
    rec.trace()
    return got


def linear(case, rec):
    m = models.find(case['model'])
    alpha = models.letters(m, 4)
    for idx in sequences(m, case):
        ys = [shape(alpha[i], j, m.p) for j, i in enumerate(idx)]
        what = 'model %s, %d iterations, data %s' % (case['model'], case['iter'], idx)
        got = run_code(rec, m, m.system(), ys, case['iter'], what)
        raw = [alpha[i] for i in idx]
        if 'pattern' in case:
            _, want = ref.filter_smoother(m, raw, ['TT'], ['TT'])
        else:
            _, want, _ = ref.joint_posteriors(m.steps(len(ys)), m.m0, m.P0, raw)
        for i, (g, w) in enumerate(zip(got, want)):
            rec.gauss(g, w[0], w[1], '%s: state %d (exact smoother)' % (what, i + 1), rtol=1e-6)
            rec.step()
        rec.outcome(case['model'], idx, want[0][0])


def stable(m, raw, it):
    try:
        a, path = ref.ieks(m, raw, it)
        b, _ = ref.ieks(m, [y * (1 + 1e-9) + 1e-9 for y in raw], it)
    except np.linalg.LinAlgError:
        return None, None
    for (x, P), (y, S) in zip(a, b):
        sd = np.sqrt(np.abs(np.diag(P)))
        if not np.all(np.isfinite(x)) or np.linalg.eigvalsh(P)[0] <= 0:
            return None, None
        if not (np.all(np.abs(x - y) < 1e-6 * (sd + np.abs(x))) and np.all(np.abs(P - S) < 1e-6 * np.outer(sd, sd))):
            return None, None
    return a, path


def nonlinear(case, rec):
    m = (models.timed if case.get('timed') else models.NONLIN().get)(case['model'])
    alpha = models.letters(m, 4)
    for idx in sequences(m, case):
        raw = [.6 * alpha[i] for i in idx]
        want, _ = stable(m, raw, case['iter'])
        if want is None:
            rec.count('unstable_skipped')
            continue
        what = 'model %s, %d iterations, data %s' % (m.name, case['iter'], idx)
        got = run_code(rec, m, m.system(), [shape(y, j, m.p) for j, y in enumerate(raw)], case['iter'], what)
        for i, (g, w) in enumerate(zip(got, want)):
            rec.gauss(g, w[0], w[1], '%s: state %d' % (what, i + 1), rtol=1e-6)
            rec.step()
        rec.outcome(m.name, case['iter'], idx, want[0][0])


def stationary(case, rec):
    m = models.NONLIN()[case['model']]
    N = case['N']
    alpha = models.letters(m, 4)
    for k in range(3):
        raw = [.5 * alpha[(k + i) % 3] for i in range(N)]
        a, path = stable(m, raw, 30)
        b, path2 = stable(m, raw, 31)
        if a is None or b is None or max(np.max(np.abs(x - y)) for x, y in zip(path, path2)) > 1e-9:
            rec.count('does_not_converge')
            continue
        got = run_code(rec, m, m.system(), raw, 30, 'model %s' % m.name)
        xs = [path[0]] + [np.array(g.mean) for g in got]
        Qi, Ri, Pi = np.linalg.inv(m.Q), np.linalg.inv(m.R), np.linalg.inv(m.P0)
        grad = [np.zeros(m.n) for _ in xs]
        grad[0] += Pi @ (xs[0] - m.m0)
        for i in range(N):
            t = i * m.dt
            e = xs[i + 1] - m.f(xs[i], t, None)
            grad[i + 1] += Qi @ e
            grad[i] -= np.atleast_2d(m.f_jac(xs[i], t, None)).T @ Qi @ e
            r = raw[i] - np.atleast_1d(m.h(xs[i + 1], t, None))
            grad[i + 1] -= np.atleast_2d(m.h_jac(xs[i + 1], t, None)).T @ Ri @ r
        scale = max(np.max(np.abs(A)) for A in (Qi, Ri, Pi))
        for i, g in enumerate(grad):
            rec.close(g, np.zeros(m.n), 'model %s, N=%d, data %d: gradient of minus the log posterior of the path with respect '
                      'to state %d' % (m.name, N, k, i), scale=scale, rtol=1e-6)
        rec.outcome(m.name, N, k)


def again(case, rec):
    """every sequence of runs of one object"""
    from Filters.KalmanFilter import IEKS
    m = models.NONLIN()[case['model']]
    d1 = [.4 * y for y in models.letters(m)]
    d2 = [.3 * y for y in models.letters(m)[::-1]][:2]
    runs = [(d1, {}), (d1, {'num_iter': 1}), (d2, {'num_iter': 3}), (d1, {'num_iter': 2})]
    wants = [stable(m, d, kw.get('num_iter', 5))[0] for d, kw in runs]
    for seq in itertools.product(range(len(runs)), repeat=2):
        f = IEKS(m.system(), m.n)
        for j in seq:
            got = f(runs[j][0], **runs[j][1])
            if wants[j] is None:
                rec.count('unstable_skipped')
                continue
            for i, (g, w) in enumerate(zip(got, wants[j])):
                rec.gauss(g, w[0], w[1], 'model %s, runs %s of one object, run %d: state %d' % (m.name, seq, j, i + 1), rtol=1e-6)
            rec.step()
        rec.ran()
        rec.outcome(m.name, seq)


def bench(case, rec):
    s = models.bench(case['model'])
    m = models.as_model(s)
    np.random.seed(case['seed'])
    ys = [np.array(y) for _, y in s.simulate(case['N'])]
    want, _ = stable(m, [np.ravel(y) for y in ys], case['iter'])
    what = '%s, %d iterations, seed %d' % (case['model'], case['iter'], case['seed'])
    if want is None:
        rec.count('unstable_skipped')
        return
    got = run_code(rec, m, s, ys, case['iter'], what)
    for i, (g, w) in enumerate(zip(got, want)):
        rec.gauss(g, w[0], w[1], '%s: state %d' % (what, i + 1), rtol=1e-4)
        rec.step()
    rec.outcome(what, want[0][0])
