"""C10: the first EP sweep against the classical Gaussian smoother on nonlinear models."""
import itertools

import numpy as np

from . import c07, models, ref

ID = 'C10'
TITLE = 'the first EP sweep equals the classical Gaussian smoother'
LEVEL = 'exploration'
RULE = ('every (nonlinear model, transform pair, measurement sequence up to the length bound), and the benchmark systems '
        'on simulated and perturbed data; non-trivial: distinct posterior of the first state')
ASSUMPTIONS = ['sequences on which the reference itself leaves the positive definite cone are skipped and counted',
               'EP starts from variance 1e10 instead of infinity, hence tolerance 1e-5 (1e-4 for benchmark systems) in '
               'units of standard deviations']

SPECS = [['TT'], ['UT', 1, 2, 1], ['UT', 1, 2, 3], ['UT', .5, 2, 2], ['UT', 1, 0, 2]]


def cases(tier):
    out = []
    q = tier == 'quick'
    for name in models.NONLIN():
        for a, b in itertools.product(SPECS[:4], repeat=2):
            for N in range(1, 4 if q else 6):
                for y in range(3) if N == 3 or not q else (None,):
                    if q and N == 3 and (SPECS.index(a) + SPECS.index(b) + y) % 2:
                        continue
                    out.append({'kind': 'toy', 'model': name, 'trans': a, 'meas': b, 'N': N, 'y': y})
    for name in models.NONLIN():
        for a, b in ((SPECS[0], SPECS[0]), (SPECS[1], SPECS[2])):
            for pattern in c07.PATTERNS:
                for N in (25,) if q else (25, 80):
                    out.append({'kind': 'toy', 'model': name, 'trans': a, 'meas': b, 'N': N, 'y': None, 'pattern': pattern})
    for name in models.BENCH:
        for a, b in itertools.product(SPECS, repeat=2):
            for seed in range(2 if q else 8):
                for pert in (0., 1.):
                    if q and (seed + int(pert) + SPECS.index(a) + SPECS.index(b)) % 2:
                        continue
                    out.append({'kind': 'bench', 'model': name, 'trans': a, 'meas': b, 'seed': seed, 'pert': pert,
                                'N': 6 if q else 25})
    return out


def run(case, rec):
    if case['kind'] == 'toy':
        m = models.NONLIN()[case['model']]
        alpha = [.4 * a for a in models.alphabet(m.p, 4)]
        for idx in c07.sequences(m, case['N'], case['y'], case.get('pattern')):
            if 'pattern' in case and not stable(m, [alpha[i] for i in idx], case):
                rec.count('reference_unstable')
                continue
            one(case, rec, m, m.system, [alpha[i] for i in idx], 1e-5)
    else:
        s = models.bench(case['model'])
        np.random.seed(500 + case['seed'])
        ys = [np.ravel(y) for _, y in s.simulate(case['N'])]
        sd = np.sqrt(np.diag(s.measurement_noise.cov))
        ys = [y + case['pert'] * sd * (-1.) ** np.arange(i, i + len(y)) for i, y in enumerate(ys)]
        m = models.as_model(models.bench(case['model']))
        one(case, rec, m, lambda: models.bench(case['model']), ys, 1e-4)


def stable(m, ys, case):
    try:
        return c07.stable(m, ys, (case['trans'], case['meas']), 0.0, None, None)
    except np.linalg.LinAlgError:
        return False


def one(case, rec, m, system, ys, rtol):
    from ExpectationPropagation import Iterations
    from Filters.KalmanFilter import KalmanFilterSmoother
    label = '%s, %s/%s, y=%s' % (case['model'], case['trans'], case['meas'], [np.round(y, 3).tolist() for y in ys])
    try:
        filt, smooth = ref.filter_smoother(m, ys, case['trans'], case['meas'])
    except np.linalg.LinAlgError:
        rec.count('reference_failed')
        return
    worst = min(np.linalg.eigvalsh(P)[0] / np.linalg.eigvalsh(P)[-1] for _, P in filt + smooth)
    if worst <= 1e-12:
        rec.count('reference_improper')
        return
    top = max(np.max(P) for _, P in filt + smooth)
    if top > 1e6:            # comparable with the 1e10 that stands for infinity in the code
        rec.count('reference_diverged')
        return
    rtol = max(rtol, 30e-10 * top)
    s = system()
    est = models.make_estimator(s, case['trans'], case['meas'], m.n)
    nodes = models.make_nodes(m, [y.copy() for y in ys], est, system=s)
    Iterations.kalman_filter(nodes)
    for i, (node, w) in enumerate(zip(nodes, filt)):
        rec.gauss(node.marginal, w[0], w[1], label + ': node %d after the forward pass' % (i + 1), rtol=rtol)
    Iterations.kalman_smoother(nodes)
    for i, (node, w) in enumerate(zip(nodes, smooth)):
        rec.gauss(node.marginal, w[0], w[1], label + ': node %d after the first sweep' % (i + 1), rtol=rtol)
    # and against the library's own smoother
    s = system()
    kf = KalmanFilterSmoother(models.make_transform(case['trans'], m.n), s,
                              meas_moment_matching=models.make_transform(case['meas'], m.n))
    f = kf.kalman_filter([y.copy() for y in ys])
    sm = kf.kalman_smoother(f)
    for i, (node, w) in enumerate(zip(nodes, sm)):
        rec.gauss(node.marginal, w.mean, w.cov, label + ': node %d against kalman_smoother' % (i + 1), rtol=rtol)
    rec.ran()
    rec.trace()
    rec.outcome(case['model'], *smooth[0])
