"""Independent references, written from the textbook definitions, never from the code under test.
Plain numpy; every covariance is symmetrised only where the mathematics says it is symmetric."""
import numpy as np


def sym(a):
    return (a + a.T) / 2


# ---------------------------------------------------------------- transforms: (mean, cov, cross)
def lin_map(A, b, m, P):
    return A @ m + b, A @ P @ A.T, P @ A.T


def ut_weights(n, alpha, beta, kappa):
    lam = alpha ** 2 * (n + kappa) - n
    wm = np.full(2 * n + 1, 0.5 / (n + lam))
    wc = wm.copy()
    wm[0] = lam / (n + lam)
    wc[0] = wm[0] + (1 - alpha ** 2 + beta)
    return lam, wm, wc


def ut(f, m, P, alpha=1, beta=2, kappa=1):
    """Scaled unscented transform (Wan & van der Merwe). f maps one state vector to one output vector."""
    n = len(m)
    lam, wm, wc = ut_weights(n, alpha, beta, kappa)
    S = np.linalg.cholesky(sym(P)) * np.sqrt(n + lam)
    X = [m] + [m + S[:, i] for i in range(n)] + [m - S[:, i] for i in range(n)]
    Y = [np.atleast_1d(f(x)) for x in X]
    mean = sum(w * y for w, y in zip(wm, Y))
    cov = sum(w * np.outer(y - mean, y - mean) for w, y in zip(wc, Y))
    cross = sum(w * np.outer(x - m, y - mean) for w, x, y in zip(wc, X, Y))
    return mean, cov, cross


def num_jac(f, m):
    """Richardson-extrapolated central differences (error O(h^4))."""
    m = np.asarray(m, dtype=float)
    cols = []
    for i in range(len(m)):
        h = 1e-3 * max(1.0, abs(m[i]))
        d = []
        for hh in (h, h / 2):
            p, q = m.copy(), m.copy()
            p[i] += hh
            q[i] -= hh
            d.append((np.atleast_1d(f(p)) - np.atleast_1d(f(q))) / (2 * hh))
        cols.append((4 * d[1] - d[0]) / 3)
    return np.stack(cols, axis=1)


def taylor(f, m, P, jac=None):
    J = np.atleast_2d(jac(m)) if jac is not None else num_jac(f, m)
    return np.atleast_1d(f(m)), J @ P @ J.T, P @ J.T


def transform(spec, f, m, P, jac=None):
    """spec: ['TT'] or ['UT', alpha, beta, kappa]."""
    if spec[0] == 'TT':
        return taylor(f, m, P, jac)
    return ut(f, m, P, *spec[1:])


# ---------------------------------------------------------------- linear-Gaussian joint posterior
def joint_posteriors(steps, m0, P0, ys):
    """steps[i] = (A, b, Q, C, d, R):  x_{i+1} = A x_i + b + w,  y_{i+1} = C x_{i+1} + d + v.
    Conditions one big joint Gaussian over (x_0..x_N) on measurements; no recursion of the filtering kind.
    Returns (filtered, smoothed, initial): filtered[i] = p(x_{i+1}|y_1..y_{i+1}), smoothed[i] = p(x_{i+1}|all),
    initial = p(x_0 | all)."""
    n = len(m0)
    N = len(steps)
    T = n * (N + 1)
    mean = np.zeros(T)
    cov = np.zeros((T, T))
    mean[:n] = m0
    cov[:n, :n] = P0
    for i, (A, b, Q, C, d, R) in enumerate(steps):
        s, e = n * (i + 1), n * (i + 2)
        mean[s:e] = A @ mean[s - n:s] + b
        cov[s:e, :s] = A @ cov[s - n:s, :s]
        cov[:s, s:e] = cov[s:e, :s].T
        cov[s:e, s:e] = A @ cov[s - n:s, s - n:s] @ A.T + Q

    def condition(k):
        """mean, cov of everything given y_1..y_k"""
        if k == 0:
            return mean, cov
        dims = [steps[i][3].shape[0] for i in range(k)]
        H = np.zeros((sum(dims), T))
        dd = np.zeros(sum(dims))
        RR = np.zeros((sum(dims), sum(dims)))
        yy = np.zeros(sum(dims))
        r = 0
        for i in range(k):
            _, _, _, C, d, R = steps[i]
            p = C.shape[0]
            H[r:r + p, n * (i + 1):n * (i + 2)] = C
            dd[r:r + p] = d
            RR[r:r + p, r:r + p] = R
            yy[r:r + p] = np.ravel(ys[i])
            r += p
        S = H @ cov @ H.T + RR
        G = np.linalg.solve(S, H @ cov).T
        return mean + G @ (yy - H @ mean - dd), sym(cov - G @ H @ cov)

    def part(mc, i):
        s, e = n * i, n * (i + 1)
        return mc[0][s:e].copy(), mc[1][s:e, s:e].copy()

    filtered = [part(condition(k), k) for k in range(1, N + 1)]
    post = condition(N)
    smoothed = [part(post, k) for k in range(1, N + 1)]
    return filtered, smoothed, part(post, 0)


# ---------------------------------------------------------------- Gaussian filter / smoother recursions
def correct(mean, cov, z, y, R):
    zm, zc, cross = z
    S = zc + R
    K = np.linalg.solve(S, cross.T).T
    return mean + K @ (np.ravel(y) - zm), sym(cov - K @ cross.T)


def filter_smoother(model, ys, trans, meas, t0=0.0, u=None, prior=None):
    """model: see models.Model. Returns filtered, smoothed lists of (mean, cov)."""
    m, P = prior if prior is not None else (model.m0, model.P0)
    filt, preds = [], []
    for i, y in enumerate(ys):
        t = t0 + i * model.dt
        pm, pc, cr = transform(trans, lambda x: model.f(x, t, u), m, P, lambda x: model.f_jac(x, t, u))
        pc = sym(pc + model.Q)
        preds.append((pm, pc, cr))
        z = transform(meas, lambda x: model.h(x, t, u), pm, pc, lambda x: model.h_jac(x, t, u))
        m, P = correct(pm, pc, z, y, model.R)
        filt.append((m, P))
    sm = [filt[-1]] if filt else []
    for i in range(len(filt) - 2, -1, -1):
        pm, pc, cr = preds[i + 1]
        J = np.linalg.solve(pc, cr.T).T
        ms, Ps = sm[0]
        sm.insert(0, (filt[i][0] + J @ (ms - pm), sym(filt[i][1] + J @ (Ps - pc) @ J.T)))
    return filt, sm


def iekf(model, ys, num_iter, t0=0.0, u=None, prior=None):
    """Gauss-Newton on the measurement update (Bell & Cathey 1993), extended Kalman prediction."""
    m, P = prior if prior is not None else (model.m0, model.P0)
    out, preds = [], []
    for i, y in enumerate(ys):
        t = t0 + i * model.dt
        pm, pc, _ = taylor(lambda x: model.f(x, t, u), m, P, lambda x: model.f_jac(x, t, u))
        pc = sym(pc + model.Q)
        x, C = pm, pc
        for _ in range(num_iter):
            # maximise -1/2 |x-pm|^2_pc - 1/2 |y - h(x_k) - H(x - x_k)|^2_R over x, information form
            H = np.atleast_2d(model.h_jac(x, t, u))
            Ri, Pi = np.linalg.inv(model.R), np.linalg.inv(pc)
            L = Pi + H.T @ Ri @ H
            rhs = Pi @ pm + H.T @ Ri @ (np.ravel(y) - np.atleast_1d(model.h(x, t, u)) + H @ x)
            x_new = np.linalg.solve(L, rhs)
            x, C = x_new, np.linalg.inv(L)
        m, P = x, C
        out.append((m, P))
        preds.append((pm, pc))
    return out, preds


def ieks(model, ys, num_iter):
    """Gauss-Newton on the whole trajectory (Bell 1994): each iteration solves the linearised joint problem densely.
    The first iteration is the extended Kalman smoother."""
    filt, sm = filter_smoother(model, ys, ['TT'], ['TT'])
    N = len(ys)
    if not N:
        return [], None
    # x_0 given the first smoothed state, by the same RTS step
    t = 0.0
    pm, pc, cr = taylor(lambda x: model.f(x, t, None), model.m0, model.P0, lambda x: model.f_jac(x, t, None))
    pc = pc + model.Q
    J = np.linalg.solve(pc, cr.T).T
    x0 = model.m0 + J @ (sm[0][0] - pm)
    path = [x0] + [s[0] for s in sm]
    for _ in range(num_iter - 1):
        steps = []
        for i in range(N):
            t = i * model.dt
            A = np.atleast_2d(model.f_jac(path[i], t, None))
            b = np.atleast_1d(model.f(path[i], t, None)) - A @ path[i]
            C = np.atleast_2d(model.h_jac(path[i + 1], t, None))
            d = np.atleast_1d(model.h(path[i + 1], t, None)) - C @ path[i + 1]
            steps.append((A, b, model.Q, C, d, model.R))
        filt, sm, init = joint_posteriors(steps, model.m0, model.P0, ys)
        path = [init[0]] + [s[0] for s in sm]
    return sm, path


# ---------------------------------------------------------------- Power EP in natural parameters
class NG:
    """natural-parameter Gaussian"""
    __slots__ = ('L', 'e')

    def __init__(self, L, e):
        self.L, self.e = L, e

    def __mul__(self, o):
        return NG(self.L + o.L, self.e + o.e)

    def __truediv__(self, o):
        return NG(self.L - o.L, self.e - o.e)

    def __pow__(self, p):
        return NG(self.L * p, self.e * p)

    def moment(self):
        C = np.linalg.inv(self.L)
        return C @ self.e, sym(C)


def ng(m, P):
    L = sym(np.linalg.inv(P))
    return NG(L, L @ m)


def proper(q):
    m, P = q.moment()
    w = np.linalg.eigvalsh(P)
    return bool(np.all(np.isfinite(P)) and np.all(np.isfinite(m)) and w[0] > 0)


class RefEP:
    """Damped Power EP on a chain in natural parameters: one factor (message) per kind and node, stored raised to
    the power alpha as in the paper, marginal = base * prod message^(1/alpha)."""
    BASE = 1e-10

    def __init__(self, model, ys, trans, meas, alpha=1.0, gamma=1.0, times=None, us=None):
        n = len(model.m0)
        self.model, self.ys, self.trans, self.meas = model, ys, trans, meas
        self.alpha, self.gamma, self.N, self.n = alpha, gamma, len(ys), n
        self.times = times if times is not None else [i * model.dt for i in range(self.N)]
        self.us = us if us is not None else [0.0] * self.N
        zero = NG(np.zeros((n, n)), np.zeros(n))
        self.base = NG(self.BASE * np.eye(n), np.zeros(n))
        self.F = [zero] * self.N      # forward
        self.M = [zero] * self.N      # measurement
        self.B = [zero] * self.N      # backward
        self.q = [self.base] * self.N

    def _f(self, i):
        t, u, mo = self.times[i], self.us[i], self.model
        return (lambda x: mo.f(x, t, u)), (lambda x: mo.f_jac(x, t, u))

    def fwd(self, i):
        a, g = self.alpha, self.gamma
        if i == 0:
            m, P = self.model.m0, self.model.P0
        else:
            cav = self.q[i - 1] / self.B[i - 1] ** (1 / a)
            if not proper(cav):
                return False
            m, P = cav.moment()
        f, j = self._f(i)
        pm, pc, _ = transform(self.trans, f, m, P, j)
        new = ng(pm, (pc + self.model.Q) / a)
        F = self.F[i] ** (1 - g) * new ** g
        q = self.q[i] * (F / self.F[i]) ** (1 / a)
        if proper(new) and proper(q):
            self.F[i], self.q[i] = F, q
            return True
        return False

    def _commit(self, i, which, m, P):
        msgs = getattr(self, which)
        p = ng(m, P)
        if not proper(p):
            return False
        ratio = p / self.q[i]
        q = self.q[i] * ratio ** (self.gamma / self.alpha)
        if not proper(q):
            return False
        msgs[i] = msgs[i] * ratio ** self.gamma
        self.q[i] = q
        return True

    def mea(self, i):
        mo = self.model
        cav = self.q[i] / self.M[i]
        if not proper(cav):
            return False
        m, P = cav.moment()
        z = transform(self.meas, lambda x: mo.h(x, None, None), m, P, lambda x: mo.h_jac(x, None, None))
        cm, cP = correct(m, P, z, self.ys[i], mo.R / self.alpha)
        return self._commit(i, 'M', cm, cP)

    def back(self, i):
        if i == self.N - 1:
            return None
        a = self.alpha
        cav = self.q[i] / self.B[i]
        if not proper(cav):
            return False
        m, P = cav.moment()
        f, j = self._f(i + 1)
        pm, pc, cr = transform(self.trans, f, m, P, j)
        pc = sym(pc + self.model.Q / a)
        cav = self.q[i + 1] / self.F[i + 1] ** (1 / a)
        mu, S = (ng(pm, pc) * cav ** a).moment()
        J = np.linalg.solve(pc, cr.T).T
        return self._commit(i, 'B', m + J @ (mu - pm), sym(P + J @ (S - pc) @ J.T))

    def sweep(self):
        for i in range(self.N):
            self.fwd(i)
            self.mea(i)
        for i in reversed(range(self.N)):
            self.back(i)

    def moments(self):
        return [q.moment() for q in self.q]
