"""Exploring the message-passing graph: states are whole graphs (deep copies, as the Demo notebook makes them),
transitions are single-node updates."""
import copy

import numpy as np

KINDS = ('fwd', 'meas', 'back')


def ops(N):
    return [(k, i) for i in range(N) for k in KINDS]


def apply(nodes, op):
    k, i = op
    getattr(nodes[i], k + '_update')()


def nat(g):
    return np.array(g.precision, dtype=float), np.array(g.shift, dtype=float)


def values(nodes):
    """[(marginal, forward, measurement, backward)] in natural parameters, per node"""
    return [(nat(n.marginal), nat(n.forward_factor), nat(n.measurement_factor), nat(n.back_factor)) for n in nodes]


def settings(nodes):
    """[(name, value)] of what updates only read: the prior, the data, power and damping of every node"""
    out = []
    for i, n in enumerate(nodes):
        prior = getattr(n, 'prior', None)
        if prior is not None:
            out.append(('the prior of node %d' % (i + 1), np.concatenate([a.ravel() for a in nat(prior)])))
        for name in ('meas', 'power', 'damping'):
            if getattr(n, name, None) is not None:
                out.append(('%s of node %d' % (name, i + 1), np.array(getattr(n, name), dtype=float)))
    return out


NAMES = ('marginal', 'forward_factor', 'measurement_factor', 'back_factor')
MESSAGE = {'fwd': 1, 'meas': 2, 'back': 3}


def key(vals):
    return [[[np.round(a / _unit(a), 7).tolist(), '%.5e' % _unit(a)] if np.any(np.abs(a) > 1e-8) else 0
             for a in pair] for node in vals for pair in node]


def _unit(a):
    u = np.max(np.abs(a))
    return float('%.6g' % u) if u > 0 else 1.


def coarse(vals, digits=5):
    """canonical form of a state: every natural parameter rounded relative to the largest of its array"""
    out = []
    for node in vals:
        for L, e in node:
            for a in (L, e):
                u = np.max(np.abs(a))
                if u < 1e-8:
                    out.append(0)
                else:
                    out.append([float('%.*g' % (digits, u))] + [round(float(v) / u, digits - 1) + 0. for v in a.ravel()])
    return out


def unchanged(a, b):
    return np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])


def differs(a, b, tol=1e-9):
    s = max(np.max(np.abs(a[0])), np.max(np.abs(b[0])), 1e-12)
    t = max(np.max(np.abs(a[1])), np.max(np.abs(b[1])), s, 1e-12)
    return np.max(np.abs(a[0] - b[0])) > tol * s or np.max(np.abs(a[1] - b[1])) > tol * t


def product_defect(vals, base, alpha):
    """largest relative deviation of marginal from base * prod messages^(1/alpha), over nodes; and the node"""
    worst = (0., None)
    for i, (q, F, M, B) in enumerate(vals):
        for j in (0, 1):
            want = base[i][j] + (F[j] + M[j] + B[j]) / alpha
            mag = max(np.max(np.abs(base[i][j])), max(np.max(np.abs(x[j])) for x in (F, M, B)) / alpha, 1e-10)
            if j == 1:       # a shift is judged against the precision scale too: it is precision times a mean of order 1
                mag = max(mag, max(np.max(np.abs(x[0])) for x in (F, M, B)) / alpha)
            d = float(np.max(np.abs(q[j] - want))) / mag
            if not d <= worst[0]:
                worst = (d, i)
    return worst


def clone(nodes):
    return copy.deepcopy(nodes)
