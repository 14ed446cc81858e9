"""C19: every sequence of computations on shared objects; each must answer as it does first thing on fresh objects."""
import itertools

import numpy as np

from . import graph, models

ID = 'C19'
TITLE = 'results do not depend on what was computed before'
LEVEL = 'model_checking'
RULE = ('every sequence of computations (including failing ones) up to the length bound on one set of shared objects; every '
        'answer is compared with the answer on fresh objects; non-trivial: distinct (model, sequence)')
ASSUMPTIONS = ['answers are compared to 1e-12 relative (caches may change rounding)',
               'failing runs are provoked by model functions that raise at a chosen call']

GOOD = ('kf', 'kf_late', 'ukf', 'prior', 'smooth_again', 'iekf', 'iekf1', 'iekf_plain', 'ieks', 'ieks2', 'ieks_one', 'ieks_plain', 'ep', 'ep_power',
        'mct', 'ut', 'ut_other', 'tt', 'sim', 'score')
BAD = ('fail_kf', 'fail_smooth', 'fail_iekf', 'fail_ieks', 'fail_ep', 'fail_ut', 'fail_mct', 'fail_sim', 'fail_est')
CORE = ('kf', 'kf_late', 'ukf', 'ieks', 'ieks_one', 'ieks_plain', 'iekf', 'ep', 'fail_ieks', 'fail_ep')


def cases(tier):
    out = []
    q = tier == 'quick'
    for name in ('pend2', 'sin1') if q else ('pend2', 'sin1', 'polar2', 'lv3', 'UNGM', 'BOTT'):
        for seq in itertools.product(GOOD + BAD, repeat=2):
            out.append({'model': name, 'seq': list(seq)})
    for name in ('polar2',) if q else ('polar2', 'sin1'):
        for seq in itertools.product(CORE if q else GOOD + BAD, repeat=3):
            out.append({'model': name, 'seq': list(seq)})
    # group, so that fresh answers are computed once per case
    groups = {}
    for c in out:
        groups.setdefault((c['model'], c['seq'][0], len(c['seq']), c['seq'][1] if len(c['seq']) > 2 else ''), []).append(c['seq'])
    return [{'model': k[0], 'seqs': v} for k, v in groups.items()]


class Boom(Exception):
    pass


class World:
    def __init__(self, name):
        from Filters.KalmanFilter import IEKF, IEKS, KalmanFilterSmoother
        from MomentMatching import MonteCarloTransform, TaylorTransform, UnscentedTransform
        from StateModel import Gaussian
        from Systems import DynamicSystemModel
        self.fuse = None
        self.calls = 0
        if name in models.BENCH:
            base = models.bench(name)
            f, h = base.transition, base.measurement
            n, p = base.system_dim, base.measurement_dim
            np.random.seed(4)
            ys = [np.ravel(y) for _, y in base.simulate(3)]
            self.m0 = np.ravel(base.init_state.mean)
        else:
            m = models.NONLIN()[name]
            base, f, h, n, p = m.system(), m._trans, m._meas, m.n, m.p
            ys = [.4 * models.alphabet(p)[i] for i in range(3)]
            self.m0 = m.m0
        self.n, self.p = n, p
        self.s = DynamicSystemModel(system_dim=n, measurement_dim=p, transition=self.guard(f), measurement=self.guard(h),
                                    system_noise=base.system_noise, measurement_noise=base.measurement_noise,
                                    init_distribution=base.init_state, dt=base.dt)
        self.ys1, self.ys2 = [y.copy() for y in ys], [y[None, :] + .1 for y in ys[::-1]]
        self.tt, self.ut = TaylorTransform(dim=n), UnscentedTransform(dim=n, alpha=1, beta=2, kappa=2)
        self.ut2 = UnscentedTransform(dim=n, alpha=.7, beta=0, kappa=3)
        self.mc = MonteCarloTransform(dim=n, number_of_samples=50)
        self.kf1 = KalmanFilterSmoother(self.tt, self.s)
        self.kf2 = KalmanFilterSmoother(self.ut, self.s, meas_moment_matching=self.tt)
        self.iekf, self.ieks = IEKF(self.s, n), IEKS(self.s, n)
        self.est = models.make_estimator(self.s, ['TT'], ['TT'], n)
        self.est.trans_map, self.est.meas_map = self.ut, self.tt
        self.est2 = models.make_estimator(self.s, ['TT'], ['TT'], n, alpha=.5, gamma=.8)
        self.est2.trans_map, self.est2.meas_map = self.tt, self.ut
        P = self.s.init_state.cov
        L = np.linalg.inv(P * 1.5)
        self.prior = Gaussian(precision_mat=L, shift_vec=L @ (self.m0 + .1))
        self.given = Gaussian(self.m0 + .2, P * .7)
        self.filtered = self.kf2.kalman_filter(self.ys1)
        self.frozen0 = self.frozen()

    def guard(self, g):
        def call(*a, **k):
            self.calls += 1
            if self.fuse is not None and self.calls >= self.fuse:
                raise Boom()
            return g(*a, **k)
        return call

    def frozen(self):
        s = self.s
        out = {'process noise': s.system_noise.cov, 'measurement noise': s.measurement_noise.cov,
               'initial mean': s.init_state.mean, 'initial covariance': s.init_state.cov,
               'prior mean': self.prior.mean, 'prior covariance': self.prior.cov,
               'given mean': self.given.mean, 'given covariance': self.given.cov,
               'estimator transition noise': self.est.transition_noise, 'estimator measurement noise': self.est.measurement_noise,
               'second estimator transition noise': self.est2.transition_noise,
               'second estimator measurement noise': self.est2.measurement_noise}
        for k, y in enumerate(self.ys1 + self.ys2):
            out['measurement %d' % k] = y
        for k, q in enumerate(self.filtered):
            out['filtered mean %d' % k] = q.mean
            out['filtered covariance %d' % k] = q.cov
        return {k: np.array(v) for k, v in out.items()}

    def go(self, op):
        np.random.seed(11)
        self.calls = 0
        if op == 'fail_est':
            return self.fail_est()
        if op.startswith('fail_'):
            self.fuse = {'fail_kf': 4, 'fail_smooth': 2, 'fail_iekf': 7, 'fail_ieks': None, 'fail_ep': 9, 'fail_ut': 1,
                         'fail_mct': 1, 'fail_sim': 3}[op]
            try:
                return self.failing(op)
            finally:
                self.fuse = None
        return getattr(self, op)()

    def failing(self, op):
        run = {'fail_kf': self.kf, 'fail_smooth': self.smooth_again, 'fail_iekf': self.iekf_run, 'fail_ep': self.ep,
               'fail_ut': self.ut_run, 'fail_mct': self.mct, 'fail_sim': self.sim}
        if op == 'fail_ieks':                       # inside the second iteration, whatever the number of calls before
            self.calls = 0
            self.fuse = 10 ** 9
            one = IEKSCALLS.get((self.n, self.p))
            if one is None:
                self.ieks(self.ys1, 1)
                a = self.calls
                self.calls = 0
                self.ieks(self.ys1, 2)
                IEKSCALLS[(self.n, self.p)] = one = (a + self.calls) // 2
            self.calls = 0
            self.fuse = one
            run[op] = lambda: self.ieks(self.ys1, 3)
        try:
            run[op]()
        except Boom:
            return ['failed']
        return ['did not fail']

    @staticmethod
    def gs(states):
        return [np.array(a, dtype=float) for q in states for a in (q.mean, q.cov)]

    def kf(self):
        f = self.kf1.kalman_filter(self.ys1)
        return self.gs(f) + self.gs(self.kf1.kalman_smoother(f))

    def kf_late(self):
        f = self.kf1.kalman_filter(self.ys1, t_zero=1.5, u=.2)
        return self.gs(f) + self.gs(self.kf1.kalman_smoother(f, t_zero=1.5, u=.2))

    def ukf(self):
        f = self.kf2.kalman_filter(self.ys2, t_zero=1., u=.3)
        return self.gs(f) + self.gs(self.kf2.kalman_smoother(f, u=.3, t_zero=1.))

    def prior_run(self):
        return self.gs(self.kf1.kalman_filter(self.ys2, prior_state=self.prior))

    def smooth_again(self):
        return self.gs(self.kf2.kalman_smoother(self.filtered))

    def iekf_run(self):
        return self.gs(self.iekf(self.ys1))

    def iekf1(self):
        return self.gs(self.iekf(self.ys2, num_iter=1, t_zero=.5))

    def iekf_plain(self):
        return self.gs(self.iekf.kalman_filter(self.ys1))

    def ieks_run(self):
        return self.gs(self.ieks(self.ys1, 2))

    def ieks2(self):
        return self.gs(self.ieks(self.ys2))

    def ieks_one(self):
        return self.gs(self.ieks(self.ys1, num_iter=1))

    def fail_est(self):
        """Projections through the shared estimators whose transforms fail or return impossible moments."""
        from scipy.linalg import LinAlgWarning
        from StateModel import Gaussian

        def stub(noise, how):
            def transform(func, state):
                k = len(noise)
                if how == 'raise':
                    raise np.linalg.LinAlgError('injected')
                cov = {'singular': -noise, 'nan': np.nan * noise, 'negative': -1e3 * noise}[how]
                return np.zeros(k), cov, np.ones((self.n, k))
            return transform
        for est in (self.est, self.est2):
            keep = est.trans_map, est.meas_map
            Q, R = np.array(est.transition_noise), np.array(est.measurement_noise)
            try:
                for how in ('raise', 'singular', 'nan', 'negative'):
                    for scale in (1., 1. / est.power):
                        est.trans_map, est.meas_map = stub(Q * scale, how), stub(R * scale, how)
                        for call in (lambda: est.proj_trans(self.s.transition, self.given),
                                     lambda: est.proj_meas(self.s.measurement, self.given, self.ys1[0].copy()),
                                     lambda: est.proj_back(self.s.transition, self.given, Gaussian(self.m0, np.eye(self.n))),
                                     lambda: est.proj_back(self.s.transition, self.given, Gaussian(self.m0, np.eye(self.n)),
                                                           next_state=Gaussian(self.m0, .5 * np.eye(self.n)))):
                            try:
                                with np.errstate(all='ignore'):
                                    call()
                            except (np.linalg.LinAlgError, LinAlgWarning, ValueError):
                                pass
            finally:
                est.trans_map, est.meas_map = keep
        return ['failed']

    def ieks_plain(self):
        f = self.ieks.kalman_filter(self.ys1)
        return self.gs(f) + self.gs(self.ieks.kalman_smoother(f))

    def sweep(self, est):
        from ExpectationPropagation import Iterations
        from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
        nodes = node_system(nodes=node_estimator(nodes=build_nodes(N=3, dim=self.n), estimator=est), system_model=self.s,
                            measurements=self.ys1)
        Iterations.ep_fwd_back_updates(nodes)
        Iterations.ep_fwd_back_updates(nodes)
        return [a for v in graph.values(nodes) for q in v for a in q]

    def ep(self):
        return self.sweep(self.est)

    def ep_power(self):
        return self.sweep(self.est2)

    def mct(self):
        return list(self.mc(lambda x: self.s.transition(x, t=.5, u=.1), self.given))

    def ut_run(self):
        return list(self.ut(lambda x: self.s.transition(x, t=.5, u=.1), self.given)) + list(self.ut(self.s.measurement, self.prior))

    def ut_other(self):
        return list(self.ut2(lambda x: self.s.transition(x, t=.5, u=.1), self.given)) + list(self.ut2(self.s.measurement, self.prior))

    def tt_run(self):
        return list(self.tt(lambda x: self.s.transition(x, t=.5, u=.1), self.prior)) + list(self.tt(self.s.measurement, self.given))

    def sim(self):
        return [np.array(a) for xy in self.s.simulate(3) for a in xy]

    def score(self):
        from Utils import Metrics
        x = [self.m0 + .1 * k for k in range(3)]
        return [self.given.nll(self.m0), self.given.squared_error(self.m0), Metrics.nll(self.filtered, x),
                Metrics.rmse(self.filtered, x), self.prior.nll(self.m0)]


IEKSCALLS = {}
NAMES = {'prior': 'prior_run', 'iekf': 'iekf_run', 'ieks': 'ieks_run', 'ut': 'ut_run', 'tt': 'tt_run'}


def perform(world, op):
    name = NAMES.get(op)
    if name:
        np.random.seed(11)
        world.calls = 0
        return getattr(world, name)()
    return world.go(op)


def run(case, rec):
    fresh = {}

    def baseline(op):
        if op not in fresh:
            fresh[op] = perform(World(case['model']), op)
        return fresh[op]

    for seq in case['seqs']:
        w = World(case['model'])
        replay = dict(case, seqs=[seq])
        for k, op in enumerate(seq):
            want = baseline(op)
            if want == ['did not fail']:
                rec.count('planned failure did not occur')
                break
            got = perform(w, op)
            rec.step()
            what = '%s: %s after %s' % (case['model'], op, seq[:k] or 'nothing')
            compare(rec, got, want, what, replay)
            if rec.state(case['model'], seq[:k + 1]):
                rec.outcome(case['model'], seq[:k + 1])
        now = w.frozen()
        for key, v in w.frozen0.items():
            rec.require(np.array_equal(v, now[key]), '%s: %s changed the %s from %s to %s'
                        % (case['model'], seq, key, v.tolist(), now[key].tolist()), case=replay)
        rec.ran()
        rec.trace()


def compare(rec, got, want, what, replay):
    rec.require(len(got) == len(want), '%s: %d results instead of %d' % (what, len(got), len(want)), case=replay)
    for a, b in zip(got, want):
        if isinstance(b, str):
            rec.require(a == b, '%s: %s instead of %s' % (what, a, b), case=replay)
        else:
            rec.close(a, b, '%s: differs from the answer on fresh objects' % what, rtol=1e-12, atol=1e-12, case=replay)
