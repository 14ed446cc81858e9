"""The finite alphabets: small state-space models, each with its own independent scalar-by-scalar definition.

A Model carries the mathematics (f, h on one state vector, Jacobians, Q, R, prior) in plain numpy; system() wraps it as
a DynamicSystemModel of the code under test, in the batched calling convention its own systems use."""
import functools
import math

import numpy as np


class Model:
    def __init__(self, name, n, p, f, h, f_jac, h_jac, Q, R, m0, P0, dt=1, trans=None, meas=None, lin=None):
        self.name, self.n, self.p = name, n, p
        self.f, self.h, self.f_jac, self.h_jac = f, h, f_jac, h_jac
        self.Q, self.R = np.array(Q, dtype=float), np.array(R, dtype=float)
        self.m0, self.P0 = np.array(m0, dtype=float), np.array(P0, dtype=float)
        self.dt = dt
        self._trans, self._meas = trans, meas
        self.scale = 1.                      # of the measurements
        self.units = 1.                      # of the state's components
        self.lin = lin                       # (A(t), b(t,u), C, d) for linear models

    def system(self):
        """A fresh DynamicSystemModel (fresh arrays) of the code under test."""
        from StateModel import Gaussian
        from Systems import DynamicSystemModel, GaussianNoise
        return DynamicSystemModel(system_dim=self.n, measurement_dim=self.p, transition=self._trans,
                                  measurement=self._meas,
                                  system_noise=GaussianNoise(dimension=self.n, cov=self.Q.copy()),
                                  measurement_noise=GaussianNoise(dimension=self.p, cov=self.R.copy()),
                                  init_distribution=Gaussian(self.m0.copy(), self.P0.copy()), dt=self.dt)

    def steps(self, N, t0=0.0, u=None, times=None, us=None):
        A, b, C, d = self.lin
        out = []
        for i in range(N):
            t = times[i] if times is not None else t0 + i * self.dt
            ui = us[i] if us is not None else u
            out.append((A(t), b(t, ui), self.Q, C, d, self.R))
        return out


def linear(name, A0, C, Q, R, m0, P0, A1=None, b0=None, b1=None, G=None, d=None, dt=1, switch=None):
    """x' = (A0 + t A1) x + b0 + t b1 + G u,   y = C x + d;   with switch=T, t is 0 before T and 1 from then on"""
    A0, C = np.array(A0, dtype=float), np.array(C, dtype=float)
    n, p = A0.shape[0], C.shape[0]
    A1 = np.zeros((n, n)) if A1 is None else np.array(A1, dtype=float)
    b0 = np.zeros(n) if b0 is None else np.array(b0, dtype=float)
    b1 = np.zeros(n) if b1 is None else np.array(b1, dtype=float)
    G = np.zeros(n) if G is None else np.array(G, dtype=float)
    d = np.zeros(p) if d is None else np.array(d, dtype=float)

    def clock(t):
        return (t or 0.0) if switch is None else float((t or 0.0) >= switch)

    def A(t):
        return A0 + clock(t) * A1

    def b(t, u):
        return b0 + clock(t) * b1 + G * (0.0 if u is None else float(np.ravel(u)[0]))

    def trans(x, t=None, u=None, **kw):
        import autograd.numpy as anp
        return anp.dot(anp.atleast_2d(x), A(t).T) + b(t, u)

    def meas(x, t=None, u=None, **kw):
        import autograd.numpy as anp
        return anp.dot(anp.atleast_2d(x), C.T) + d

    return Model(name, n, p, lambda x, t, u: A(t) @ x + b(t, u), lambda x, t=None, u=None: C @ x + d,
                 lambda x, t, u: A(t), lambda x, t=None, u=None: C, Q, R, m0, P0, dt, trans, meas, (A, b, C, d))


@functools.lru_cache(None)
def LIN():
    """Linear-Gaussian models: dimensions 1-5, time-varying, controlled, offset, rectangular, degenerate."""
    L = {}

    def add(*a, **k):
        m = linear(*a, **k)
        L[m.name] = m

    add('1', [[.9]], [[1.]], [[.5]], [[1.]], [0.], [[1.]])
    add('1tv', [[.8]], [[2.]], [[.3]], [[.7]], [1.], [[2.]], A1=[[.3]], b0=[.5], b1=[-.4], G=[1.5], d=[.25], dt=1 / 3)
    add('1big', [[1.2]], [[-.5]], [[25.]], [[.01]], [3.], [[100.]], b0=[-2.], G=[-3.])
    add('2cv', [[1., .5], [0., 1.]], [[1., 0.]], [[.1, .05], [.05, .2]], [[.5]], [0., 1.], [[1., .3], [.3, 2.]])
    add('2rot', [[.6, -.8], [.7, .5]], [[1., .5], [-.3, 2.]], [[.4, .1], [.1, .3]], [[1., .4], [.4, .8]],
        [1., -1.], [[2., -.5], [-.5, 1.]], b0=[.3, -.2], d=[.5, -1.], G=[.7, -.4])
    add('2tv', [[.9, .2], [-.1, .8]], [[.5, 1.]], [[.3, 0.], [0., .1]], [[.4]], [-1., 2.], [[1., 0.], [0., 3.]],
        A1=[[.1, -.2], [.3, .05]], b0=[.1, .2], b1=[.5, -.7], G=[1., 2.], d=[.1], dt=.0375)
    add('2o', [[.5, .4], [-.6, .9]], [[1., 0.], [0., 2.], [1., -1.]], [[.2, .1], [.1, .6]],
        [[.5, .1, 0.], [.1, .7, .2], [0., .2, .9]], [0., 0.], [[1., .2], [.2, .5]], d=[.1, 0., -.4])
    add('2sing', [[1., 2.], [.5, 1.]], [[0., 1.]], [[.3, .1], [.1, .2]], [[.6]], [.5, .5], [[1., .4], [.4, 1.]])
    add('3', [[.9, .3, 0.], [-.2, .7, .4], [.1, -.5, .8]], [[1., -1., .5]],
        [[.3, .1, 0.], [.1, .4, -.1], [0., -.1, .2]], [[.8]], [1., 0., -1.],
        [[2., .4, .1], [.4, 1., -.3], [.1, -.3, 1.5]], b0=[.1, -.2, .3])
    add('3tv', [[.7, 0., .3], [.2, .8, 0.], [-.4, .1, .9]], [[1., 0., 2.], [0., 1., -1.]],
        [[.2, .05, .02], [.05, .3, .04], [.02, .04, .25]], [[.6, .2], [.2, .9]], [0., 2., -1.],
        [[1., .2, 0.], [.2, 1.5, .1], [0., .1, .7]], A1=[[0., .2, 0.], [.1, 0., -.1], [0., .3, 0.]],
        b1=[.2, -.1, .4], G=[1., -1., .5], d=[.3, -.6], dt=.5)
    add('4', [[1., 0., .5, 0.], [0., 1., 0., .5], [0., -.2, .9, 0.], [.1, 0., 0., .8]],
        [[1., 0., 0., .3], [0., 1., -.2, 0.]],
        [[.3, 0., .1, 0.], [0., .3, 0., .1], [.1, 0., .2, 0.], [0., .1, 0., .25]], [[.5, .1], [.1, .4]],
        [0., 1., -1., .5], [[1., .1, 0., 0.], [.1, 1.2, .2, 0.], [0., .2, .8, .1], [0., 0., .1, 2.]])
    add('5', (np.eye(5) * .8 + .1 * np.roll(np.eye(5), 1, 0) - .3 * np.roll(np.eye(5), 2, 0)).tolist(),
        [[1., 0., 0., 0., .5], [0., 1., 0., -1., 0.], [0., 0., 2., 0., 0.], [.3, 0., 0., 1., 0.]],
        (np.eye(5) * .4 + .05).tolist(), (np.eye(4) * .5 + .1).tolist(), [1., 2., 0., -1., .5],
        (np.eye(5) + .2).tolist(), b0=[.1, 0., -.1, .2, 0.])
    # small scales: every distribution is narrower than 1e-3, as angles in radians are
    add('1small', [[.95]], [[1.5]], [[2e-7]], [[1e-6]], [.001], [[1e-6]], b0=[1e-4], d=[.0002])
    add('2small', [[1., .1], [-.1, .9]], [[1., .4]], [[2e-7, 1e-8], [1e-8, 1e-7]], [[5e-7]], [.002, -.001],
        [[1e-6, 2e-7], [2e-7, 2e-6]], G=[1e-4, 2e-4])
    L['1small'].scale = L['2small'].scale = 1e-3
    # large scale, as positions in metres
    add('1wide', [[.99]], [[1.]], [[100.]], [[400.]], [50.], [[1e4]], b0=[-5.], G=[10.])
    L['1wide'].scale = L['1wide'].units = 20.
    # components on very different scales, as a position in metres and an angle in radians
    add('2scale', [[.95, 300.], [-1e-6, .9]], [[1., 0.], [1e-6, 1.]], [[25., 3e-4], [3e-4, 1e-7]], [[9., -1e-4], [-1e-4, 1e-7]],
        [50., .002], [[400., 2e-3], [2e-3, 1e-6]], G=[3., 1e-3], b0=[-2., 1e-4])
    L['2scale'].scale = np.array([20., 1e-3])
    L['2scale'].units = np.array([20., 1e-3])
    return L


@functools.lru_cache(None)
def LONG():
    """Linear models that only differ from the others in long series: they change after a while, or slowly."""
    L = [linear('1sw', [[.9]], [[1.]], [[.5]], [[1.]], [0.], [[1.]], A1=[[-1.4]], b1=[.3], switch=24.5),
         linear('2sw', [[1., .5], [0., 1.]], [[1., 0.]], [[.1, .05], [.05, .2]], [[.5]], [0., 1.], [[1., .3], [.3, 2.]],
                A1=[[0., -.4], [0., -.9]], b1=[0., .5], switch=31),
         linear('1slow', [[.9]], [[1.]], [[.5]], [[1.]], [0.], [[1.]], A1=[[.0006]])]
    return {m.name: m for m in L}


def find(name):
    return LIN().get(name) or LONG()[name]


def mat(rows):
    return np.array(rows, dtype=float)


@functools.lru_cache(None)
def NONLIN():
    """Small smooth nonlinear models with analytic Jacobians (and autograd-able wrappers)."""
    out = {}

    def wrap(comp):
        """comp(cols, t, u, np) -> list of columns; batched like the library's own systems"""
        def g(x, t=None, u=None, **kw):
            import autograd.numpy as anp
            X = anp.atleast_2d(x)
            cols = [X[:, i] for i in range(X.shape[1])]
            return anp.stack(comp(cols, t, u, anp), axis=1)
        return g

    def plain(comp):
        return lambda x, t=None, u=None: np.array([float(c) for c in comp([float(v) for v in x], t, u, np)])

    def add(name, n, p, fc, hc, fj, hj, Q, R, m0, P0, dt=1):
        out[name] = Model(name, n, p, plain(fc), plain(hc), lambda x, t=None, u=None: mat(fj(x, t, u)),
                          lambda x, t=None, u=None: mat(hj(x, t, u)), Q, R, m0, P0, dt, wrap(fc), wrap(hc))

    def uu(u):
        return 0.0 if u is None else u

    def tt(t):
        return 0.0 if t is None else t

    add('sin1', 1, 1, lambda c, t, u, np: [np.sin((1 + .1 * tt(t)) * c[0]) + .5 * c[0] + .1 * tt(t) + uu(u)],
        lambda c, t, u, np: [c[0] + .2 * c[0] ** 2],
        lambda x, t, u: [[(1 + .1 * tt(t)) * math.cos((1 + .1 * tt(t)) * x[0]) + .5]], lambda x, t, u: [[1 + .4 * x[0]]],
        [[.3]], [[.5]], [.5], [[.8]])
    add('exp1', 1, 2, lambda c, t, u, np: [.7 * c[0] + np.exp(-c[0] ** 2) - .2 * tt(t)],
        lambda c, t, u, np: [np.sin(c[0]), c[0] ** 2 + c[0]],
        lambda x, t, u: [[.7 - 2 * x[0] * math.exp(-x[0] ** 2)]],
        lambda x, t, u: [[math.cos(x[0])], [2 * x[0] + 1]],
        [[.2]], [[.4, .1], [.1, .6]], [-.5], [[.5]], dt=.4375)
    add('pend2', 2, 1, lambda c, t, u, np: [c[0] + .4 * c[1], c[1] - (.5 + .1 * tt(t)) * np.sin(c[0]) + .3 * uu(u)],
        lambda c, t, u, np: [np.sin(c[0]) + .1 * c[1]],
        lambda x, t, u: [[1, .4], [-(.5 + .1 * tt(t)) * math.cos(x[0]), 1]],
        lambda x, t, u: [[math.cos(x[0]), .1]],
        [[.05, .02], [.02, .1]], [[.2]], [.8, 0.], [[.3, .05], [.05, .2]], dt=1 / 7)
    add('polar2', 2, 2, lambda c, t, u, np: [.9 * c[0] - .3 * c[1] + .1 * c[0] * c[1], .2 * c[0] + .8 * c[1] + .2 * np.cos(tt(t))],
        lambda c, t, u, np: [np.sqrt((c[0] + 4.) ** 2 + (c[1] - 3.) ** 2), np.arctan2(c[1] - 3., c[0] + 4.)],
        lambda x, t, u: [[.9 + .1 * x[1], -.3 + .1 * x[0]], [.2, .8]],
        lambda x, t, u: (lambda a, b, r: [[a / r, b / r], [-b / r ** 2, a / r ** 2]])(
            x[0] + 4., x[1] - 3., math.hypot(x[0] + 4., x[1] - 3.)),
        [[.1, .03], [.03, .2]], [[.3, .01], [.01, .05]], [1., -1.], [[.5, .1], [.1, .4]])
    add('lv3', 3, 2, lambda c, t, u, np: [c[0] + .1 * c[1] * c[2], c[1] - .2 * c[0] * c[2] + .1 * tt(t), .9 * c[2] + .1 * np.sin(c[0]) + uu(u)],
        lambda c, t, u, np: [c[0] * c[1], c[2] + .3 * c[0] ** 2],
        lambda x, t, u: [[1, .1 * x[2], .1 * x[1]], [-.2 * x[2], 1, -.2 * x[0]], [.1 * math.cos(x[0]), 0, .9]],
        lambda x, t, u: [[x[1], x[0], 0], [.6 * x[0], 0, 1]],
        [[.1, .02, 0], [.02, .2, .03], [0, .03, .15]], [[.4, .1], [.1, .3]], [1., .5, -1.],
        [[.3, .05, 0], [.05, .2, -.02], [0, -.02, .4]], dt=.5)
    return out


@functools.lru_cache(None)
def timed(name):
    """a nonlinear model whose measurement function depends on time and control as well"""
    m = NONLIN()[name]

    def gain(t):
        return 1 + .2 * (0. if t is None else t)

    def tu(t, u):
        return .3 * (0. if t is None else t) - .4 * (0. if u is None else u)

    meas = m._meas
    return Model(name + '+t', m.n, m.p, m.f, lambda x, t=None, u=None: gain(t) * m.h(x, t, u) + tu(t, u), m.f_jac,
                 lambda x, t=None, u=None: gain(t) * m.h_jac(x, t, u), m.Q, m.R, m.m0, m.P0, m.dt, m._trans,
                 lambda x, t=None, u=None: gain(t) * meas(x) + tu(t, u))


BENCH = ('UNGM', 'BOT', 'BOTT', 'L96')


def bench(name):
    """A benchmark system of the code under test, and the same model through finite differences for the references."""
    import Systems
    if name == 'UNGM':
        s = Systems.UniformNonlinearGrowthModel()
    elif name == 'BOT':
        s = Systems.BearingsOnlyTracking()
    elif name == 'BOTT':
        s = Systems.BearingsOnlyTrackingTurn()
    elif name == 'L96':
        s = Systems.L96(dim=6)
    return s


def as_model(s):
    """View a system object of the code under test as a Model (its own functions, finite-difference Jacobians)."""
    from . import ref

    def f(x, t, u=None):
        return np.ravel(s.transition(np.array(x, dtype=float), t=t))

    def h(x, t=None, u=None):
        return np.ravel(s.measurement(np.array(x, dtype=float)))

    m = Model('bench', s.system_dim, s.measurement_dim, f, h, lambda x, t, u=None: ref.num_jac(lambda z: f(z, t), x),
              lambda x, t=None, u=None: ref.num_jac(h, x), s.system_noise.cov, s.measurement_noise.cov,
              np.ravel(s.init_state.mean), s.init_state.cov, s.dt)
    return m


# ---------------------------------------------------------------- transforms of the code under test
UTS = (['UT', 1, 2, 1], ['UT', 1, 2, 3], ['UT', 1, 0, 2], ['UT', .5, 2, 1], ['UT', 1e-1, 2, 0], ['UT', 2, 1, .5])


def make_transform(spec, n):
    from MomentMatching import TaylorTransform, UnscentedTransform
    if spec[0] == 'TT':
        return TaylorTransform(dim=n)
    return UnscentedTransform(dim=n, alpha=spec[1], beta=spec[2], kappa=spec[3])


def make_estimator(model_or_sys, trans, meas, n, alpha=1, gamma=1):
    from MomentMatching.Estimator import Estimator
    s = model_or_sys
    Q = s.Q.copy() if isinstance(s, Model) else s.transition_noise.cov
    R = s.R.copy() if isinstance(s, Model) else s.measurement_noise.cov
    return Estimator(trans_map=make_transform(trans, n), meas_map=make_transform(meas, n), trans_noise=Q, meas_noise=R,
                     power=alpha, damping=gamma)


def make_nodes(model, ys, estimator, farg_list=None, system=None):
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    nodes = build_nodes(N=len(ys), dim=model.n)
    nodes = node_estimator(nodes=nodes, estimator=estimator)
    kw = {} if farg_list is None else {'farg_list': farg_list}
    return node_system(nodes=nodes, system_model=system if system is not None else model.system(), measurements=ys, **kw)


def data(m, k=3):
    """k distinct measurements on the scale of the model"""
    return [m.scale * y for y in alphabet(m.p, k)]


def letters(m, k=3):
    """k distinct measurements of order one, or in the units of the measurements where these differ"""
    return [y * m.scale if np.ndim(m.scale) else y for y in alphabet(m.p, k)]


def expected(m, N):
    """the measurements of a linear model that bring no surprise"""
    x, out = m.m0, []
    for A, b, _, C, d, _ in m.steps(N):
        x = A @ x + b
        out.append(C @ x + d)
    return out


def alphabet(p, k=3):
    """k distinct measurement vectors of dimension p."""
    base = [np.array([(-1.) ** j * (1. + .5 * j) for j in range(p)]), np.array([.3 * (j + 1) for j in range(p)]),
            np.array([-2.5 + 1.7 * j for j in range(p)]), np.zeros(p)]
    return base[:k]
