"""C17: simulation with the random source replaced by scripted noise: every (model, length, start, time, step) of the grid
is replayed exactly, draw by draw; then the Gaussian noise itself."""
import itertools

import numpy as np

from . import models

ID = 'C17'
TITLE = 'simulation draws exactly x_t = f(x_{t-1}, t) + w_t and y_t = h(x_t) + v_t'
LEVEL = 'exploration'
RULE = ('every (model, N, initial state form, start time, time step, noise script) of the grid, each run replayed from the '
        'recorded draws; degenerate and full Gaussian noise; non-trivial: distinct trajectory')
ASSUMPTIONS = ['scripted noise sources stand for the random generator: the k-th draw of each is a known vector',
               'moments of Gaussian draws are judged at 7 standard errors over 20000 draws with fixed seeds']


def cases(tier):
    out = []
    q = tier == 'quick'
    Ns = (0, 1, 2, 3, 6) if q else (0, 1, 2, 3, 4, 5, 8, 16)
    for name in sorted(SPECIAL) + sorted(models.LIN()) + sorted(models.NONLIN()) + list(models.BENCH):
        for N in Ns:
            for start in ('flat', 'row', 'int', 'drawn'):
                for base in ('model', 'subclass'):
                    if base == 'subclass' and name not in SPECIAL:
                        continue
                    for t0, dt in ((0., 1), (2.5, .5), (-1., .1)):
                        out.append({'kind': 'scripted', 'model': name, 'N': N, 'start': start, 'base': base, 't0': t0, 'dt': dt})
    for n in (1, 2, 3):
        for mean in ('none', 'zero', 'given'):
            for cov in ('zero', 'rank1', 'full', 'diag'):
                out.append({'kind': 'noise', 'dim': n, 'mean': mean, 'cov': cov})
        for cov in ('rank1', 'full', 'diag'):
            out.append({'kind': 'initial', 'dim': n, 'cov': cov})
    for name in models.BENCH:
        for seed in (1, 2) if q else range(1, 9):
            out.append({'kind': 'bench', 'model': name, 'seed': seed, 'N': 60 if q else 200})
    for name in ('1tv', '2rot', '3tv', 'sin1', 'polar2'):
        out.append({'kind': 'seeds', 'model': name})
    return out


def run(case, rec):
    return globals()[case['kind']](case, rec)


BUF = {}


def buffer(v):
    """a function that hands out the same array every time"""
    b = BUF.setdefault(np.shape(v), np.zeros(np.shape(v)))
    b[...] = v
    return b


# name -> (n, p, f(x, t), h(x), reference f, reference h)
SPECIAL = {
    'identity': (2, 2, lambda x, t=None, u=None: x, lambda x, t=None, u=None: x, lambda x, t: x, lambda x: x),
    'view': (2, 1, lambda x, t=None, u=None: x[..., ::-1], lambda x, t=None, u=None: x[..., :1],
             lambda x, t: x[::-1], lambda x: x[:1]),
    'clock': (1, 1, lambda x, t=None, u=None: 0 * x + t, lambda x, t=None, u=None: x, lambda x, t: 0 * x + t, lambda x: x),
    'buffer': (2, 2, lambda x, t=None, u=None: buffer(x * .5 + t), lambda x, t=None, u=None: buffer(x * 2),
               lambda x, t: x * .5 + t, lambda x: x * 2),
    'same': (1, 1, lambda x, t=None, u=None: x, lambda x, t=None, u=None: x, lambda x, t: x, lambda x: x),
}


def get(name):
    """(n, p, f, h, reference f(x, t), reference h(x), m0, P0)"""
    if name in SPECIAL:
        n, p, f, h, rf, rh = SPECIAL[name]
        return n, p, f, h, rf, rh, np.arange(1., n + 1), np.eye(n)
    if name in models.BENCH:
        s = models.bench(name)
        m = models.as_model(s)
        return (m.n, m.p, s.transition, s.measurement, lambda x, t: m.f(x, t), lambda x: m.h(x), m.m0, m.P0)
    m = models.LIN().get(name) or models.NONLIN()[name]
    return m.n, m.p, m._trans, m._meas, lambda x, t: m.f(x, t, None), lambda x: m.h(x), m.m0, m.P0


def make_noise(dim, script):
    from Systems.DynamicSystem import NoiseModel

    class Scripted(NoiseModel):
        def __init__(self):
            super().__init__(dimension=dim, params=None)
            self.drawn = []
            self.cov = np.eye(dim)
            self.mean = np.zeros(dim)

        def sample(self, size=None):
            if size is not None:
                return np.array([self.sample() for _ in range(int(np.prod(size)))]).reshape(np.append(size, dim))
            v = script(len(self.drawn))
            self.drawn.append(v.copy())
            return v

    return Scripted()


def scripted(case, rec):
    from StateModel import Gaussian
    from Systems import DynamicSystemModel
    from Systems.DynamicSystem import DynamicSystem
    n, p, f, h, rf, rh, m0, P0 = get(case['model'])
    N, t0, dt = case['N'], case['t0'], case['dt']
    shared = np.zeros(n)

    def system_script(k):
        if case['model'] == 'same':
            shared[...] = k + 1.           # a noise source that reuses its buffer
            return shared
        return np.array([.1 * (k + 1) * (-1) ** (k + j) + .01 * j for j in range(n)])

    w = make_noise(n, system_script)
    v = make_noise(p, lambda k: np.array([.02 * (k + 1) + .003 * j * (k + 2) for j in range(p)]))
    prior = Gaussian(m0.copy(), 0 * P0)
    if case['base'] == 'model':
        s = DynamicSystemModel(system_dim=n, measurement_dim=p, transition=f, measurement=h, system_noise=w,
                               measurement_noise=v, init_distribution=prior, dt=dt)
    else:
        class Own(DynamicSystem):
            system_noise = w
            measurement_noise = v
            init_state = prior

            def transition(self, x, u=None, t=None, *a, **k):
                return f(x, t=t)

            def measure(self, x, *a, **k):
                return h(x)
        s = Own()
        s.dt = dt
    x0 = {'flat': m0.copy() + .5, 'row': m0.copy()[None, :] - .25, 'int': np.round(m0).astype(int) + 1, 'drawn': None}[case['start']]
    keep = None if x0 is None else x0.copy()
    args = {} if x0 is None else {'x_zero': x0}
    if t0 or case['start'] == 'row':
        args['t_zero'] = t0
    data = s.simulate(N, **args)
    what = '%s, N=%d, %s start, t0=%s, dt=%s' % (case['model'], N, case['start'], t0, dt)
    rec.require(len(data) == N, '%s: %d steps returned' % (what, len(data)))
    if x0 is not None:
        rec.same(x0, keep, '%s: the initial state of the caller' % what)
    rec.same(prior.mean, m0, '%s: the mean of the initial distribution' % what)
    rec.require(len(w.drawn) == N and len(v.drawn) == N,
                '%s: %d system and %d measurement noise draws for %d steps' % (what, len(w.drawn), len(v.drawn), N))
    x = m0.copy() if x0 is None else keep.ravel().astype(float)
    for i, (xi, yi) in enumerate(data):
        t = t0 + i * dt
        rec.require(not isinstance(xi, np.ndarray) or xi.dtype.kind == 'f', '%s: state %d has dtype %s' % (what, i + 1, getattr(xi, 'dtype', None)))
        x = np.ravel(rf(x.copy(), t)) + w.drawn[i]
        rec.close(np.ravel(xi), x, '%s: state %d' % (what, i + 1), rtol=1e-9)
        rec.close(np.ravel(yi), np.ravel(rh(x.copy())) + v.drawn[i], '%s: measurement %d' % (what, i + 1), rtol=1e-9)
        rec.step()
    arrays = [a for xy in data for a in xy if isinstance(a, np.ndarray)]
    rec.require(len(arrays) == 2 * N, '%s: some entries are not arrays' % what)
    if x0 is not None:
        arrays.append(x0)
    for a, b in itertools.combinations(arrays, 2):
        rec.require(not np.shares_memory(a, b), '%s: two returned arrays (or one and the initial state) share memory' % what)
    for a in arrays:
        old = [b.copy() for b in arrays]
        a += a.dtype.type(1)
        for b, o in zip(arrays, old):
            rec.require(b is a or np.array_equal(b, o), '%s: changing one entry changes another' % what)
    rec.ran()
    rec.trace()
    rec.outcome(case)
    rec.state(case['model'], N, case['start'], t0, dt)


def covariance(kind, n):
    one = np.arange(1., n + 1)
    A = np.eye(n) + .6 * np.triu(np.ones((n, n)), 1)
    return {'zero': np.zeros((n, n)), 'rank1': np.outer(one, one), 'full': A @ A.T, 'diag': np.diag(one * 2)}[kind]


def moments(rec, X, mean, cov, what, rank1=False):
    K = len(X)
    d = X - mean
    se = np.sqrt(np.diag(cov) / K)
    rec.require(np.all(np.abs(d.mean(0)) <= 7 * se + 1e-9), '%s: sample mean %s, expected %s' % (what, X.mean(0), mean))
    S = d.T @ d / K
    sd = np.sqrt((np.outer(np.diag(cov), np.diag(cov)) + cov ** 2) / K)
    rec.require(np.all(np.abs(S - cov) <= 7 * sd + 1e-9), '%s: sample covariance %s, expected %s' % (what, S, cov))
    w, V = np.linalg.eigh(cov)
    for i in range(len(w)):
        if w[i] < 1e-9 * max(w[-1], 1):
            rec.require(np.max(np.abs(d @ V[:, i])) < 1e-6, '%s: draws vary in a direction of zero variance' % what)


def noise(case, rec):
    from Systems import GaussianNoise
    n = case['dim']
    C = covariance(case['cov'], n)
    mean = {'none': None, 'zero': np.zeros(n), 'given': np.arange(1., n + 1) * 3}[case['mean']]
    kw = {} if mean is None else {'mean': mean.copy()}
    g = GaussianNoise(dimension=n, cov=C.copy(), **kw)
    mu = np.zeros(n) if mean is None else mean
    rec.require(g.dimension == n, 'dimension %s' % g.dimension)
    rec.close(g.mean, mu, 'the mean of the noise')
    rec.close(g.cov, C, 'the covariance of the noise')
    np.random.seed(5 + n)
    first = g.sample()
    rec.require(np.shape(first) == (n,), 'one draw has shape %s' % (np.shape(first),))
    X = g.sample(size=20000)
    rec.require(np.shape(X) == (20000, n), 'draws of size 20000 have shape %s' % (np.shape(X),))
    what = 'GaussianNoise(mean=%s, cov=%s)' % (mean, C.tolist())
    moments(rec, X, mu, C, what)
    Y = np.array([g.sample() for _ in range(2000)])
    moments(rec, Y, mu, C, what + ' drawn one by one')
    if case['cov'] != 'zero':
        rec.require(len(np.unique(Y[:, 0])) > 1990, what + ': draws repeat')
    rec.close(g.mean, mu, 'the mean of the noise after sampling')
    rec.close(g.cov, C, 'the covariance of the noise after sampling')
    rec.ran()
    rec.outcome(case)


def initial(case, rec):
    """without an initial state, one is drawn from the initial distribution"""
    from StateModel import Gaussian
    from Systems import DynamicSystemModel
    n = case['dim']
    C = covariance(case['cov'], n)
    mu = np.arange(1., n + 1) * 2
    zero = [make_noise(n, lambda k: np.zeros(n)) for _ in range(2)]
    s = DynamicSystemModel(system_dim=n, measurement_dim=n, transition=lambda x, t=None, u=None: x,
                           measurement=lambda x, t=None, u=None: x, system_noise=zero[0], measurement_noise=zero[1],
                           init_distribution=Gaussian(mu.copy(), C.copy()))
    np.random.seed(7)
    X = np.array([np.ravel(s.simulate(1)[0][0]) for _ in range(3000)])
    moments(rec, X, mu, C, 'initial states drawn from mean %s, covariance %s' % (mu, C.tolist()))
    rec.require(len(np.unique(X[:, 0])) > 2990, 'initial states repeat')
    rec.ran()
    rec.outcome(case)


def bench(case, rec):
    """the residuals of the benchmark systems are noise of the stated covariance"""
    s = models.bench(case['model'])
    m = models.as_model(s)
    np.random.seed(case['seed'])
    N = case['N']
    data = s.simulate(N)
    np.random.seed(case['seed'])
    again = s.simulate(N)
    W, V = [], []
    prev = None
    for i, ((x, y), (x2, y2)) in enumerate(zip(data, again)):
        rec.same(x, x2, '%s: state %d under the same seed' % (case['model'], i + 1))
        rec.same(y, y2, '%s: measurement %d under the same seed' % (case['model'], i + 1))
        x, y = np.ravel(x), np.ravel(y)
        if prev is not None:
            W.append(x - m.f(prev, i * s.dt))
        V.append(y - m.h(x))
        prev = x
    for name, E, C in (('system', np.array(W), m.Q), ('measurement', np.array(V), m.R)):
        whiten = np.linalg.solve(np.linalg.cholesky(C), E.T)
        k = whiten.size
        chi = float(np.sum(whiten ** 2))
        rec.require(abs(chi - k) < 8 * np.sqrt(2. * k), '%s: the %s residuals are not noise of the stated covariance: their '
                    'squared norm is %.4g, expected %d +- %.3g' % (case['model'], name, chi, k, np.sqrt(2. * k)))
        S = whiten @ whiten.T / whiten.shape[1]
        rec.require(np.max(np.abs(S - np.eye(len(S)))) < 8 * np.sqrt(2. / whiten.shape[1]),
                    '%s: the %s residuals are not white: %s' % (case['model'], name, S))
    rec.ran()
    rec.step(N)
    rec.outcome(case)


def seeds(case, rec):
    n, p, f, h, rf, rh, m0, P0 = get(case['model'])
    m = models.LIN().get(case['model']) or models.NONLIN()[case['model']]
    seen = {}
    for seed in range(12):
        for fresh in (True, False):
            if fresh:
                s = m.system()
            np.random.seed(seed)
            tr = [np.ravel(a).tolist() for xy in s.simulate(4) for a in xy]
            if seed in seen:
                rec.require(seen[seed] == tr, 'seed %d gives two different trajectories' % seed)
            seen[seed] = tr
            rec.ran()
    vals = list(seen.values())
    rec.require(all(a != b for a, b in itertools.combinations(vals, 2)), 'two seeds give the same trajectory')
    np.random.seed(3)
    a = s.simulate(3)
    b = s.simulate(3)
    rec.require(not np.array_equal(a[0][0], b[0][0]), 'two successive simulations are identical')
    rec.outcome(case)
