"""C08: the Gaussian smoother, on every measurement sequence over a finite alphabet for every model and option."""
import numpy as np

from . import c07, models, ref

ID = 'C08'
TITLE = 'the smoother computes the smoothing distributions'
LEVEL = 'exploration'
RULE = ('every (model, transforms, start time, control input, prior, measurement sequence up to the length bound); '
        'non-trivial: distinct first smoothing distribution')
ASSUMPTIONS = c07.ASSUMPTIONS


def cases(tier):
    out = []
    for c in c07.cases(tier):
        c = dict(c)
        if c['kind'] == 'linear' and tier == 'quick' and c['N'] >= 4 and c['opt'][2] != 'init':
            continue
        if c['kind'] == 'bench':
            c['N'] += 1
        out.append(c)
    return out


def state_values(states):
    return [(np.array(s.mean), np.array(s.cov)) for s in states]


def check(rec, case, kf, filt, want, t0, u, label, rtol=1e-6, atol=1e-9):
    kw = {}
    if u is not None:
        kw['u'] = u
    if t0 != 0.0:
        kw['t_zero'] = t0
    before = state_values(filt)
    got = kf.kalman_smoother(filt, **kw)
    rec.require(len(got) == len(filt), label + ': %d smoothed states for %d filtered ones' % (len(got), len(filt)))
    for (m, P), s in zip(before, filt):
        rec.require(np.array_equal(m, s.mean) and np.array_equal(P, s.cov), label + ': a filter result was modified')
    for i, (g, w) in enumerate(zip(got, want)):
        rec.gauss(g, w[0], w[1], '%s: smoothed state %d of %d' % (label, i + 1, len(got)), rtol=rtol, atol=atol)
    rec.close(got[-1].mean, filt[-1].mean, label + ': last smoothed mean', rtol=1e-12)
    rec.close(got[-1].cov, filt[-1].cov, label + ': last smoothed covariance', rtol=1e-12)
    return got


def run(case, rec):
    if case['kind'] == 'bench':
        return bench(case, rec)
    if case['kind'] == 'reuse':
        return c07.reuse(case, rec, smooth=check)
    m = c07.model_of(case)
    t0, u, pk = case['opt']
    alpha = models.letters(m, 4)
    pair = [case['pair'][0], case['pair'][1] or case['pair'][0]]
    for idx in c07.sequences(m, case['N'], case.get('first'), case.get('pattern')):
        ys = [c07.shape(alpha[i], j, m.p) for j, i in enumerate(idx)]
        raw = [alpha[i] for i in idx]
        prior, pr = c07.prior_of(m, pk)
        if case['kind'] == 'linear' and 'pattern' in case:
            _, want = ref.filter_smoother(m, raw, ['TT'], ['TT'], t0, u, pr)
        elif case['kind'] == 'linear':
            _, want, _ = ref.joint_posteriors(m.steps(len(idx), t0=t0, u=u), pr[0], pr[1], raw)
        else:
            try:
                f, want = ref.filter_smoother(m, raw, pair[0], pair[1], t0, u, pr)
            except np.linalg.LinAlgError:
                rec.count('reference_failed')
                continue
            if any(np.linalg.eigvalsh(P)[0] <= 1e-9 for _, P in f + want):
                rec.count('reference_improper')
                continue
            if 'pattern' in case and not c07.stable(m, raw, pair, t0, u, pr):
                rec.count('reference_unstable')
                continue
        kf, filt = c07.run_filter(case, rec, m, m.system(), ys, prior, t0, u)
        check(rec, case, kf, filt, want, t0, u, 'model %s, transforms %s, t0=%s u=%s prior=%s, y=%s'
              % (case['model'], case['pair'], t0, u, pk, list(idx)))
        rec.outcome(case['model'], t0, u, pk, *want[0])


def bench(case, rec):
    s = models.bench(case['model'])
    m = models.as_model(models.bench(case['model']))
    np.random.seed(100 + case['seed'])
    ys = [y for _, y in s.simulate(case['N'], t_zero=case['t0'])]
    pair = [case['pair'][0], case['pair'][1] or case['pair'][0]]
    try:
        f, want = ref.filter_smoother(m, ys, pair[0], pair[1], case['t0'])
    except np.linalg.LinAlgError:
        rec.count('reference_failed')
        return
    if any(np.linalg.eigvalsh(P)[0] <= 0 for _, P in f + want):
        rec.count('reference_improper')
        return
    kf, filt = c07.run_filter(case, rec, m, s, ys, None, case['t0'], None)
    check(rec, case, kf, filt, want, case['t0'], None, '%s with %s, seed %d' % (case['model'], case['pair'], case['seed']),
          rtol=1e-4, atol=1e-7)
    rec.outcome(case['model'], *want[0])
