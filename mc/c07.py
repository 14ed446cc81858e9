"""C07: the Gaussian filter, on every measurement sequence over a finite alphabet for every model and option."""
import itertools

import numpy as np

from . import models, ref

ID = 'C07'
TITLE = 'the filter computes the filtering distributions'
LEVEL = 'exploration'
RULE = ('every (model, transforms, start time, control input, prior, measurement sequence up to the length bound); '
        'non-trivial: distinct final filtering distribution')
ASSUMPTIONS = ['exact answers by conditioning the joint Gaussian of all states; nonlinear answers by an independent '
               'predict/correct recursion (long linear series too); relative tolerance 1e-6 in units of standard deviations',
               'a long series is left out (and counted) when a change of the data by 1e-11 changes an answer by more than 1e-8']

PAIRS = [[['TT'], None], [['UT', 1, 2, 1], None], [['UT', .5, 0, 2], ['TT']], [['TT'], ['UT', 1, 2, 3]]]
OPTS = [[0.0, None, 'init'], [0.75, 0.7, 'init'], [-1.0, None, 'moment'], [2.0, -0.3, 'natural'], [0.0, 0.4, 'moment']]


def cases(tier):
    out = []
    for name, m in models.LIN().items():
        N = {1: 4, 2: 4, 3: 3}.get(m.n, 3) if tier == 'quick' else {1: 6, 2: 5, 3: 5}.get(m.n, 4)
        for pair in PAIRS:
            for opt in OPTS:
                for n in range(1, N + 1):
                    out.append({'kind': 'linear', 'model': name, 'pair': pair, 'opt': opt, 'N': n,
                                'first': None if n < 4 else 0})
                    if n >= 4:
                        out += [dict(out[-1], first=1), dict(out[-1], first=2)]
    for name in models.NONLIN():
        for pair in PAIRS:
            for opt in OPTS:
                for n in range(1, 4 if tier == 'quick' else 6):
                    out.append({'kind': 'nonlinear', 'model': name, 'pair': pair, 'opt': opt, 'N': n})
    for name in models.NONLIN():
        for pair in PAIRS:
            for opt in OPTS:
                for n in (1, 2) if tier == 'quick' else (1, 2, 3, 4):
                    out.append({'kind': 'nonlinear', 'model': name, 'pair': pair, 'opt': opt, 'N': n, 'timed': True})
            for timed in (False, True):
                out.append({'kind': 'reuse', 'model': name, 'pair': pair, 'timed': timed})
    # long series
    for kind, names in (('linear', list(models.LIN()) + list(models.LONG())), ('nonlinear', models.NONLIN())):
        for i, name in enumerate(names):
            for j, pair in enumerate(PAIRS):
                for k, opt in enumerate(OPTS):
                    if tier == 'quick' and (i + j + k) % 4:
                        continue
                    for N in (40, 150) if tier == 'quick' else (40, 150, 500):
                        if N > 40 and kind == 'nonlinear' and (N > 150 or tier == 'quick'):
                            continue
                        for pattern in PATTERNS if N < 150 else PATTERNS[-1:]:
                            out.append({'kind': kind, 'model': name, 'pair': pair, 'opt': opt, 'N': N, 'pattern': pattern})
    for name in models.BENCH:
        for pair in PAIRS:
            for seed in range(2 if tier == 'quick' else 10):
                for t0 in (0.0, 3.0):
                    out.append({'kind': 'bench', 'model': name, 'pair': pair, 'seed': seed, 't0': t0,
                                'N': 5 if tier == 'quick' else 20})
    return out


PATTERNS = [[0], [0, 2, 1], [3, 3, 3, 0], [1, 1, 0, 2, 2]]


def prior_of(m, kind):
    """(object for the code or None, (mean, cov))"""
    from StateModel import Gaussian
    if kind == 'init':
        return None, (m.m0, m.P0)
    mean, P = m.m0 + 1.5 * m.units, 2 * m.P0 + .1 * np.diag(m.units ** 2 * np.ones(m.n))
    if kind == 'moment':
        return Gaussian(mean.copy(), P.copy()), (mean, P)
    L = np.linalg.inv(P)
    return Gaussian(precision_mat=L, shift_vec=L @ mean), (mean, P)


def shape(y, k, p):
    """measurements in every shape the library hands out"""
    if p == 1:
        return (np.array(y), np.array([y]), np.array(y[0]))[k % 3]
    return (np.array(y), np.array([y]))[k % 2]


def make_filter(pair, m, system):
    from Filters.KalmanFilter import KalmanFilterSmoother
    kw = {}
    if pair[1] is not None:
        kw['meas_moment_matching'] = models.make_transform(pair[1], m.n)
    return KalmanFilterSmoother(models.make_transform(pair[0], m.n), system, **kw)


def sequences(m, N, first=None, pattern=None):
    if pattern is not None:
        yield tuple(pattern[i % len(pattern)] for i in range(N))
        return
    for idx in itertools.product(range(3), repeat=N):
        if first is not None and idx[0] != first:
            continue
        yield idx
    if first in (None, 0):
        yield from zeros(N)


def zeros(N):
    """sequences with measurements of exactly zero (letter 3)"""
    for idx in [(3,) * N, (0,) + (3,) * (N - 1), (3,) * (N - 1) + (1,)][:3 if N > 1 else 1]:
        yield idx


def frozen(system, prior, ys):
    return [np.array(a) for a in (system.system_noise.cov, system.measurement_noise.cov, system.init_state.mean,
                                  system.init_state.cov)] + [np.array(y) for y in ys] + \
        ([np.array(prior.mean), np.array(prior.cov)] if prior is not None else [])


def unchanged(rec, a, b, what):
    rec.require(len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b)), what + ': model, prior or data were modified')


def run_filter(case, rec, m, system, ys, prior, t0, u, kf=None):
    kf = kf or make_filter(case['pair'], m, system)
    kw = {}
    if prior is not None:
        kw['prior_state'] = prior
    if t0 != 0.0:
        kw['t_zero'] = t0
    if u is not None:
        kw['u'] = u
    before = frozen(system, prior, ys)
    got = kf.kalman_filter(ys, **kw)
    unchanged(rec, before, frozen(system, prior, ys), 'filtering %s' % case['model'])
    rec.require(len(got) == len(ys), 'the filter returned %d states for %d measurements' % (len(got), len(ys)))
    rec.ran()
    rec.trace()
    return kf, got


def run(case, rec):
    kind = case['kind']
    if kind == 'bench':
        return bench(case, rec)
    if kind == 'reuse':
        return reuse(case, rec)
    m = model_of(case)
    t0, u, pk = case['opt']
    alpha = models.letters(m, 4)
    pair = [case['pair'][0], case['pair'][1] or case['pair'][0]]
    cache = {}
    for idx in sequences(m, case['N'], case.get('first'), case.get('pattern')):
        ys = [shape(alpha[i], j, m.p) for j, i in enumerate(idx)]
        prior, pr = prior_of(m, pk)
        raw = [alpha[i] for i in idx]
        if kind == 'linear' and 'pattern' in case:
            want, _ = ref.filter_smoother(m, raw, ['TT'], ['TT'], t0, u, pr)
        elif kind == 'linear':
            want = filtered(m, idx, raw, t0, u, pr, cache)
        else:
            try:
                want, _ = ref.filter_smoother(m, raw, pair[0], pair[1], t0, u, pr)
            except np.linalg.LinAlgError:
                rec.count('reference_failed')
                continue
            if any(np.linalg.eigvalsh(P)[0] <= 1e-9 for _, P in want):
                rec.count('reference_improper')
                continue
            if 'pattern' in case and not stable(m, raw, pair, t0, u, pr):
                rec.count('reference_unstable')
                continue
        _, got = run_filter(case, rec, m, m.system(), ys, prior, t0, u)
        for i, (g, w) in enumerate(zip(got, want)):
            rec.gauss(g, w[0], w[1], 'filtered state %d of %d, model %s, transforms %s, t0=%s u=%s prior=%s, y=%s'
                      % (i + 1, len(ys), case['model'], case['pair'], t0, u, pk, list(idx)))
        rec.outcome(case['model'], t0, u, pk, *want[-1])


def stable(m, raw, pair, t0, u, pr):
    """a change of the data by 1e-11 changes no answer by more than 1e-8: rounding does not decide it"""
    runs = [ref.filter_smoother(m, ys, pair[0], pair[1], t0, u, pr)
            for ys in (raw, [y * (1 + 1e-11) + 1e-11 for y in raw])]
    for (x, P), (y, S) in zip(runs[0][0] + runs[0][1], runs[1][0] + runs[1][1]):
        sd = np.sqrt(np.abs(np.diag(P)))
        if not (np.all(np.abs(x - y) < 1e-8 * (sd + np.abs(x))) and np.all(np.abs(P - S) < 1e-8 * np.outer(sd, sd))):
            return False
    return True


def model_of(case):
    if case.get('timed'):
        return models.timed(case['model'])
    return models.find(case['model']) if case['kind'] == 'linear' else models.NONLIN()[case['model']]


def reuse(case, rec, smooth=None):
    """one object, every ordered pair of options: each run honours its own options"""
    m = model_of(case)
    alpha = models.letters(m, 4)
    raw = [.6 * alpha[i] for i in (0, 2, 1)]
    pair = [case['pair'][0], case['pair'][1] or case['pair'][0]]
    wants = []
    for t0, u, pk in OPTS:
        try:
            f, s = ref.filter_smoother(m, raw, pair[0], pair[1], t0, u, prior_of(m, pk)[1])
            ok = all(np.linalg.eigvalsh(P)[0] > 1e-9 for _, P in f + s)
        except np.linalg.LinAlgError:
            ok = False
        wants.append((f, s) if ok else None)
    for seq in itertools.product(range(len(OPTS)), repeat=2):
        system = m.system()
        kf = make_filter(case['pair'], m, system)
        for k in seq:
            t0, u, pk = OPTS[k]
            if wants[k] is None:
                rec.count('reference_improper')
                continue
            prior, _ = prior_of(m, pk)
            _, got = run_filter(case, rec, m, system, [shape(y, j, m.p) for j, y in enumerate(raw)], prior, t0, u, kf)
            what = 'model %s, transforms %s, runs with options %s on one object' % (m.name, case['pair'], [OPTS[i] for i in seq])
            for i, (g, w) in enumerate(zip(got, wants[k][0])):
                rec.gauss(g, w[0], w[1], '%s: filtered state %d of the run with %s' % (what, i + 1, OPTS[k]))
            if smooth is not None:
                smooth(rec, case, kf, got, wants[k][1], t0, u, what)
            rec.outcome(m.name, seq, k)


def filtered(m, idx, raw, t0, u, pr, cache):
    out = []
    for k in range(1, len(idx) + 1):
        key = idx[:k]
        if key not in cache:
            cache[key] = ref.joint_posteriors(m.steps(k, t0=t0, u=u), pr[0], pr[1], raw[:k])[0][-1]
        out.append(cache[key])
    return out


def bench(case, rec):
    """benchmark systems on data simulated from them"""
    s = models.bench(case['model'])
    m = models.as_model(models.bench(case['model']))
    np.random.seed(100 + case['seed'])
    ys = [y for _, y in s.simulate(case['N'], t_zero=case['t0'])]
    pair = [case['pair'][0], case['pair'][1] or case['pair'][0]]
    try:
        want, _ = ref.filter_smoother(m, ys, pair[0], pair[1], case['t0'])
    except np.linalg.LinAlgError:
        rec.count('reference_failed')
        return
    bad = [np.linalg.eigvalsh(P)[0] <= 0 for _, P in want]
    if any(bad):
        rec.count('reference_improper')
        return
    _, got = run_filter(case, rec, m, s, ys, None, case['t0'], None)
    for i, (g, w) in enumerate(zip(got, want)):
        rec.gauss(g, w[0], w[1], 'filtered state %d of %s with %s, seed %d' % (i + 1, case['model'], case['pair'], case['seed']),
                  rtol=1e-4, atol=1e-7)
    rec.outcome(case['model'], *want[-1])
