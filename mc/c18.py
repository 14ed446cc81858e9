"""C18: the benchmark systems against independently written equations on complete grids of states and parameters."""
import collections
import itertools
import math
import os

import numpy as np

ID = 'C18'
TITLE = 'the benchmark systems implement their documented equations'
LEVEL = 'exploration'
RULE = ('every (system, parameters, state, time) of the grid, alone and in batches of several sizes: value, Jacobian and '
        'untouched input; every noise parameter; non-trivial: distinct (system, parameters, state)')
ASSUMPTIONS = ['reference equations written scalar by scalar from the documentation and the literature',
               'automatic derivatives are compared with central differences of the reference to 1e-5']

Sensor = collections.namedtuple('Sensor', ['x', 'y'])
SENSORS = {'one': [(3., -2.)], 'two': [(-5., 1.), (2., 7.)], 'four': [(10., 10.), (-10., 10.), (-10., -10.), (10., -10.)],
           'five': [(0., 0.), (1., 0.), (0., 1.), (-4., 2.5), (100., -70.)],
           'far': [(20000., 20000.), (-20000., 5.), (7., -20000.)]}


def cases(tier):
    out = []
    q = tier == 'quick'
    for t in (0., 1., 2.5, -3., 17., 100.) if q else [k * .5 for k in range(-20, 60)]:
        out.append({'kind': 'ungm', 't': t, 'fine': not q})
    for dt in (.1, .5, 1., 2.):
        for sens in ('default', 'None') + tuple(SENSORS):
            out.append({'kind': 'bot', 'dt': dt, 'sensors': sens, 'fine': not q})
            for w in (0., 1e-12, -1e-9, 1e-6, -1e-4, 9.9e-4, -1.01e-3, 2e-3, -.05235987755982989, .3, -1.7, 3.2):
                if q and sens not in ('default', 'four') and w not in (0., .3):
                    continue
                out.append({'kind': 'bott', 'dt': dt, 'sensors': sens, 'w': w, 'fine': not q})
    for dim in (4, 5, 6, 7, 10, 40):
        for F in (8, 4., 0.):
            for dt in (.05, .01, .1):
                out.append({'kind': 'l96', 'dim': dim, 'F': F, 'dt': dt, 'fine': not q})
    out.append({'kind': 'noise'})
    out.append({'kind': 'l96file'})
    return out


def run(case, rec):
    return globals()[case['kind']](case, rec)


# ------------------------------------------------------------------------------------------------ comparisons
def check(rec, fn, refs, states, what, kwargs, rtol=1e-9, atol=1e-9, jac=True):
    """fn (batched) against refs (one state -> list) on every state alone, in pairs and in bigger batches"""
    n = len(states[0])
    wants = []
    for x in states:
        X = np.array(x, dtype=float)
        want = np.array(refs(x), dtype=float)
        wants.append(want)
        for arr in (X.copy()[None, :],) + ((X.copy(),) if n > 1 or len(want) == 1 else ()):
            before = arr.copy()
            got = np.ravel(fn(arr, **kwargs))
            rec.same(arr, before, '%s: the state passed in' % what)
            rec.close(got, want, '%s at %s' % (what, x), rtol=rtol, atol=atol)
        rec.ran()
        rec.outcome(what, list(x))
    long = states * (1 + 300 // len(states))                 # a batch as large as a Monte-Carlo transform's
    for count in (129, 300) if rtol < 1e-6 else ():
        got = np.asarray(fn(np.array(long[:count], dtype=float), **kwargs))
        rec.close(got, np.array((wants * (1 + 300 // len(states)))[:count]), '%s on a batch of %d' % (what, count), rtol=rtol,
                  atol=atol)
        rec.step()
    for size in sorted({2, 3, 4, 5, len(wants[0]), n, 2 * n + 1, len(states)}):
        for start in range(0, len(states), size):
            B = np.array(states[start:start + size], dtype=float)
            before = B.copy()
            got = np.asarray(fn(B, **kwargs))
            rec.same(B, before, '%s: the batch passed in' % what)
            rec.close(got, np.array(wants[start:start + size]), '%s on a batch of %d' % (what, len(B)), rtol=rtol,
                      atol=atol)
            rec.step()
    if jac:
        import autograd
        for x in states[:24]:
            X = np.array(x, dtype=float)
            J = autograd.jacobian(lambda z: fn(z, **kwargs))(X)
            J = np.reshape(J, (len(refs(x)), n))
            want = np.zeros((len(refs(x)), n))
            for j in range(n):
                hstep = 1e-5 * max(1., abs(x[j]))
                a, b = list(x), list(x)
                a[j] += hstep
                b[j] -= hstep
                d = np.array(refs(a)) - np.array(refs(b))
                if 'measurement' in what and 'racking' in what:
                    d = (d + np.pi) % (2 * np.pi) - np.pi
                want[:, j] = d / (2 * hstep)
            sc = np.maximum(np.max(np.abs(want)), 1e-6)
            rec.close(J, want, '%s: automatic derivative at %s' % (what, list(x)), rtol=1e-5, atol=1e-9, scale=sc)
            rec.step()


def grid(*axes):
    return [list(p) for p in itertools.product(*axes)]


def dims(rec, s, n, p, what):
    rec.require(s.system_dim == n and s.measurement_dim == p, '%s: dimensions %s, %s instead of %s, %s'
                % (what, s.system_dim, s.measurement_dim, n, p))
    rec.require(np.shape(np.ravel(s.init_state.mean)) == (n,) and np.shape(s.init_state.cov) == (n, n)
                and np.linalg.eigvalsh(s.init_state.cov)[0] > 0, '%s: initial distribution' % what)


def psd(rec, C, want, what):
    rec.close(C, want, what, rtol=1e-12, atol=0)
    rec.require(np.array_equal(C, C.T) or np.allclose(C, C.T, rtol=1e-15), what + ' is not symmetric')
    rec.require(np.linalg.eigvalsh(C)[0] >= -1e-12 * np.max(np.abs(C)), what + ' is not positive semidefinite')


# ------------------------------------------------------------------------------------------------ the systems
def ungm(case, rec):
    from Systems import UniformNonlinearGrowthModel
    s = UniformNonlinearGrowthModel()
    t = case['t']
    xs = [[v] for v in (0., 1., -1., .5, -.5, 2., -3., 7., -20., 33.3, 1e-6, 1e3)] + \
        ([[k / 10.] for k in range(-100, 101)] if case['fine'] else [])
    check(rec, s.transition, lambda x: [x[0] / 2 + 25 * x[0] / (1 + x[0] * x[0]) + 8 * math.cos(1.2 * t)], xs,
          'growth model transition, t=%s' % t, {'t': t})
    check(rec, s.measurement, lambda x: [x[0] * x[0] / 20], xs, 'growth model measurement', {})
    dims(rec, s, 1, 1, 'growth model')
    psd(rec, s.system_noise.cov, [[1.]], 'growth model: process noise')
    psd(rec, s.measurement_noise.cov, [[10.]], 'growth model: measurement noise')
    rec.close(s.init_state.mean, [0.], 'growth model: initial mean')
    rec.close(s.init_state.cov, [[5.]], 'growth model: initial variance')


def sensors(case, rec, default):
    name = case['sensors']
    if name == 'default':
        return default, {}
    if name == 'None':
        return default, {'sensor_list': None}
    pts = SENSORS[name]
    return pts, {'sensor_list': [Sensor(x=a, y=b) for a, b in pts]}


def bot(case, rec):
    from Systems import BearingsOnlyTracking
    dt = case['dt']
    pts, kw = sensors(case, rec, [(10., 10.), (-10., 10.), (-10., -10.), (10., -10.)])
    s = BearingsOnlyTracking(delta_t=dt, **kw)
    what = 'bearings-only tracking(delta_t=%s, sensors=%s)' % (dt, case['sensors'])
    p = default_count(rec, s, case, pts)
    states = grid((0., 3.5, -12.), (.5, -2., 15.), (1., -.7), (0., 2.))
    check(rec, s.transition, lambda x: [x[0] + dt * x[2], x[1] + dt * x[3], x[2], x[3]], states, what + ' transition', {})
    if case['sensors'] in ('default', 'None'):
        pts = default_sensors('Systems.BearingsOnlyTracking')
    check(rec, s.measurement, lambda x: [math.atan2(x[1] - b, x[0] - a) for a, b in pts],
          [x for x in states if off(x[0], x[1], pts)] + [[-50., 0.25, 0., 0.], [50., -.25, 1., 1.], [3., 1.5, 0., 0.],
                                                        [2., -60., 0, 0]],
          what + ' measurement', {})
    dims(rec, s, 4, p, what)
    rec.close(s.init_state.mean, [0., 0., 1., 0.], what + ': initial mean')
    rec.close(s.init_state.cov, .1 * np.eye(4), what + ': initial covariance')
    rec.require(default_sensors('Systems.BearingsOnlyTracking') == [(-10., 10.), (10., 10.), (-10., -10.), (10., -10.)],
                what + ': default sensors')
    for Q, R in ((None, None), (.01, .001), (2., .3)):
        s = BearingsOnlyTracking(delta_t=dt, **kw) if Q is None else BearingsOnlyTracking(Q_sigma=Q, R_sigma=R, delta_t=dt, **kw)
        q, r = (.01, .001) if Q is None else (Q, R)
        a, b, c = q * dt ** 3 / 3, q * dt ** 2 / 2, q * dt
        psd(rec, s.system_noise.cov, [[a, 0, b, 0], [0, a, 0, b], [b, 0, c, 0], [0, b, 0, c]], what + ': process noise')
        psd(rec, s.measurement_noise.cov, np.eye(p) * r, what + ': measurement noise')


def default_sensors(module):
    import importlib
    import sys
    importlib.import_module(module)
    return [(float(z.x), float(z.y)) for z in sys.modules[module].Default_Sensor_List]


def default_count(rec, s, case, pts):
    if case['sensors'] not in ('default', 'None'):
        return len(pts)
    return s.measurement_dim


def off(x, y, pts):
    return all(abs(x - a) + abs(y - b) > 1e-9 for a, b in pts)


def bott(case, rec):
    from Systems import BearingsOnlyTrackingTurn
    dt, w = case['dt'], case['w']
    pts, kw = sensors(case, rec, None)
    if pts is None:
        pts = default_sensors('Systems.BearingOnlyTrackingTurn')
    s = BearingsOnlyTrackingTurn(delta_t=dt, **kw)
    what = 'coordinated-turn tracking(delta_t=%s, sensors=%s)' % (dt, case['sensors'])
    p = default_count(rec, s, case, pts)

    def f(x):
        a = x[4] * dt
        S = math.sin(a) / x[4] if x[4] else dt
        C = 2 * math.sin(a / 2) ** 2 / x[4] if x[4] else 0.
        return [x[0] + S * x[1] - C * x[3], math.cos(a) * x[1] - math.sin(a) * x[3],
                x[2] + C * x[1] + S * x[3], math.sin(a) * x[1] + math.cos(a) * x[3], x[4]]

    states = grid((1000., -3.), (300., -1.5, 0.), (1000., 4.), (0., 250., -7.), (w,))
    check(rec, s.transition, f, states, what + ' transition, turn rate %s' % w, {}, rtol=1e-9, jac=False)
    jac_turn(rec, s, f, states[:12], what + ' transition, turn rate %s' % w, dt)
    # straight and turning targets in one batch
    mixed = [[1000., 300., 1000., -20., v] for v in (0., .3, -1e-5, 0., 2., 1e-3, -.05)]
    check(rec, s.transition, f, mixed, what + ' transition, mixed turn rates', {}, rtol=1e-9, jac=False)
    check(rec, s.measurement, lambda x: [math.atan2(x[2] - b, x[0] - a) for a, b in pts],
          [x for x in states[::3] if off(x[0], x[2], pts)] + [[-30000., 0., .5, 0., w], [30000., 0, -.5, 0, w]],
          what + ' measurement of tracking', {})
    dims(rec, s, 5, p, what)
    rec.close(s.init_state.mean, [1000., 300., 1000., 0., -math.pi / 60], what + ': initial mean')
    rec.close(s.init_state.cov, np.diag([100., 10., 100., 10., 1e-4]), what + ': initial covariance')
    rec.require(default_sensors('Systems.BearingOnlyTrackingTurn') == [(-2e4, 2e4), (2e4, 2e4), (-2e4, -2e4), (2e4, -2e4)],
                what + ': default sensors')
    for Q, R in ((None, None), ([.1, 1.75e-4], [.5]), ([3., .2], [2e-3])):
        if Q is None:
            s, Q, R = BearingsOnlyTrackingTurn(delta_t=dt, **kw), [.1, 1.75e-4], [math.sqrt(10) * 1e-3]
        else:
            s = BearingsOnlyTrackingTurn(Q_sigma=list(Q), R_sigma=list(R), delta_t=dt, **kw)
        a, b, c = Q[0] * dt ** 3 / 3, Q[0] * dt ** 2 / 2, Q[0] * dt
        psd(rec, s.system_noise.cov, [[a, b, 0, 0, 0], [b, c, 0, 0, 0], [0, 0, a, b, 0], [0, 0, b, c, 0],
                                      [0, 0, 0, 0, dt * Q[1]]], what + ': process noise')
        psd(rec, s.measurement_noise.cov, np.eye(p) * R[0] ** 2, what + ': measurement noise')
    R = [.1 * (k + 1) for k in range(p)]                    # one accuracy for each sensor
    s = BearingsOnlyTrackingTurn(R_sigma=list(R), delta_t=dt, **kw)
    psd(rec, s.measurement_noise.cov, np.diag(np.square(R)), what + ': measurement noise of sensors %s' % R)


def jac_turn(rec, s, f, states, what, dt):
    """automatic derivative against the analytic one, which is smooth at a straight course"""
    import autograd
    for x in states:
        w, a = x[4], x[4] * dt
        if abs(a) < 1e-3:                                       # series of the derivatives with respect to w
            S, C, dS, dC = dt * (1 - a * a / 6), dt * (a / 2 - a ** 3 / 24), -a * dt * dt / 3, dt * dt * (.5 - a * a / 8)
        else:
            S, C = math.sin(a) / w, 2 * math.sin(a / 2) ** 2 / w
            dS, dC = (dt * math.cos(a) - S) / w, (dt * math.sin(a) - C) / w
        c, sn = math.cos(a), math.sin(a)
        v, u = x[1], x[3]
        want = np.array([[1, S, 0, -C, dS * v - dC * u], [0, c, 0, -sn, dt * (-sn * v - c * u)],
                         [0, C, 1, S, dC * v + dS * u], [0, sn, 0, c, dt * (c * v - sn * u)], [0, 0, 0, 0, 1]])
        J = np.reshape(autograd.jacobian(lambda z: s.transition(z))(np.array(x)), (5, 5))
        rec.close(J, want, '%s: automatic derivative at %s' % (what, x), rtol=1e-6,
                  scale=1 + np.maximum(abs(v), abs(u)) * dt * dt)
        rec.step()


def l96(case, rec):
    from Systems import L96
    dim, F, dt = case['dim'], case['F'], case['dt']
    path = 'x0_%d_%s_%s_%d.npy' % (dim, F, dt, os.getpid())
    np.save(path, np.full(dim, 1.) + .1 * np.arange(dim))
    s = L96(dim=dim, F=F, delta_t=dt, init_cond_path=path)
    what = 'Lorenz-96(dim=%d, F=%s, delta_t=%s)' % (dim, F, dt)

    def d(x):
        return [(x[(i + 1) % dim] - x[i - 2]) * x[i - 1] - x[i] + F for i in range(dim)]

    def f(x):
        k1 = d(x)
        k2 = d([a + dt / 2 * b for a, b in zip(x, k1)])
        k3 = d([a + dt / 2 * b for a, b in zip(x, k2)])
        k4 = d([a + dt * b for a, b in zip(x, k3)])
        return [a + dt / 6 * (p + 2 * q + 2 * r + t) for a, p, q, r, t in zip(x, k1, k2, k3, k4)]

    states = [[float(F)] * dim] + [[F + .01 * (j == k) for j in range(dim)] for k in range(0, dim, 3)] + \
        [[3 * math.sin(1.7 * j * k + k) + k for j in range(dim)] for k in range(1, 5 if not case['fine'] else 25)]
    check(rec, s.transition, f, states, what + ' transition', {}, rtol=1e-9, jac=dim <= 10)
    check(rec, s.measurement, lambda x: [v * v for v in x], states, what + ' measurement', {}, jac=dim <= 10)
    dims(rec, s, dim, dim, what)
    rec.close(s.init_state.mean, np.full(dim, 1.) + .1 * np.arange(dim), what + ': stored initial condition')
    psd(rec, s.system_noise.cov, np.eye(dim) * .1, what + ': process noise')
    psd(rec, s.measurement_noise.cov, np.eye(dim), what + ': measurement noise')
    s = L96(dim=dim, F=F, delta_t=dt, Q_sigma=.7, R_sigma=3., init_cond_path=path)
    psd(rec, s.system_noise.cov, np.eye(dim) * .7, what + ': process noise')
    psd(rec, s.measurement_noise.cov, np.eye(dim) * 3, what + ': measurement noise')


def l96file(case, rec):
    """construction without a stored initial condition, and with one that does not exist"""
    from Systems import L96
    for kw in ({}, {'init_cond_path': 'missing.npy'}):
        for dim in (5, 8):
            s = L96(dim=dim, **kw)
            dims(rec, s, dim, dim, 'Lorenz-96 without stored initial condition')
            rec.require(np.all(np.isfinite(s.init_state.mean)) and np.max(np.abs(s.init_state.mean)) < 40,
                        'Lorenz-96: initial condition %s' % s.init_state.mean)
            rec.ran()
            rec.outcome(kw, dim)
    # a weakly forced model settles at its rest state x = F, whatever the perturbation; strong forcing leaves it
    for kw in ({}, {'init_cond_path': 'missing.npy'}):
        for dim in (4, 5, 8, 13):
            for F in (0., .25, .5, .7, -.3):
                s = L96(dim=dim, F=F, **kw)
                rec.close(s.init_state.mean, np.full(dim, F), 'Lorenz-96(dim=%d, F=%s): run-in initial condition' % (dim, F),
                          rtol=0, atol=1e-3)
                rec.ran()
                rec.outcome(kw, dim, F)
    for dim in (5, 6):
        s = L96(dim=dim, F=8)
        rec.require(np.max(np.abs(s.init_state.mean - 8)) > .5, 'Lorenz-96: initial condition not run in: %s' % s.init_state.mean)
        # what was run in once is what the experiment scripts load
        u = L96(dim=dim, F=8, init_cond_path='../log/L96_initial_condition_F_8_dim_%d.npy' % dim)
        rec.same(np.array(u.init_state.mean), np.array(s.init_state.mean), 'Lorenz-96: stored initial condition')
        rec.close(u.init_state.cov, np.eye(dim), 'Lorenz-96: initial covariance')


def noise(case, rec):
    """constructing one system does not affect another (no shared defaults)"""
    from Systems import BearingsOnlyTracking, BearingsOnlyTrackingTurn, UniformNonlinearGrowthModel
    for make in (BearingsOnlyTracking, BearingsOnlyTrackingTurn, UniformNonlinearGrowthModel):
        a = make()
        want = a.system_noise.cov.copy(), a.measurement_noise.cov.copy(), np.array(a.init_state.mean), a.init_state.cov.copy()
        for arr in (a.system_noise.cov, a.measurement_noise.cov, a.init_state.cov):
            arr[...] = 77.
        b = make()
        for got, w, name in zip((b.system_noise.cov, b.measurement_noise.cov, b.init_state.mean, b.init_state.cov), want,
                                ('process noise', 'measurement noise', 'initial mean', 'initial covariance')):
            rec.close(got, w, '%s: %s of a second system after changing the first' % (make.__name__, name), rtol=0, atol=0)
        rec.ran()
        rec.outcome(make.__name__)
