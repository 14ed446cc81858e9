"""C01: breadth-first search over Gaussian expressions; exact natural-parameter arithmetic as the model."""
import itertools
from fractions import Fraction

import numpy as np

ID = 'C01'
TITLE = 'Gaussian product, quotient and power'
LEVEL = 'model_checking'
RULE = ('all expressions built by left/right product, quotient and power from the generator states, up to the stated '
        'depth, with every policy of reading attributes in between; an expression is non-trivial when its value '
        '(precision, shift) differs from all others and is not the vacuous state')
ASSUMPTIONS = ['operand values come from a fixed finite alphabet per dimension',
               'results are compared to natural-parameter arithmetic with relative tolerance 1e-8 of the largest '
               'operand involved; mean/covariance only when the precision is well conditioned (ratio > 1e-7)']

POWERS = [0, 0.2, 0.5, 1, 2, 3, -1]


def inverse(P):
    """Exact rational inverse of a float matrix, rounded once."""
    n = len(P)
    M = [[Fraction(float(v)) for v in row] + [Fraction(int(i == j)) for j in range(n)] for i, row in enumerate(P)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [v / d for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [a - f * b for a, b in zip(M[r], M[c])]
    return np.array([[float(v) for v in row[n:]] for row in M])


def spd(n, k):
    """k-th symmetric positive definite matrix with small dyadic entries and non-zero off-diagonals"""
    B = np.array([[((i * 7 + j * 3 + k * 5) % 9 - 4) / 4. for j in range(n)] for i in range(n)])
    return B @ B.T + np.diag([.5 + .25 * ((i + k) % 4) for i in range(n)])


def vec(n, k):
    return np.array([((i * 5 + k * 3) % 11 - 5) / 2. for i in range(n)])


def generators(n):
    """name -> (constructor, precision, shift)"""
    from StateModel import Gaussian
    from StateModel.Gaussian import GaussianFactor
    g = {}

    def moment(name, m, P, arg=None):
        L = inverse(P)
        g[name] = ((lambda: Gaussian(np.array(m) if arg is None else arg, np.array(P))), L, L @ m)

    def natural(name, L, e):
        g[name] = ((lambda: Gaussian(precision_mat=np.array(L), shift_vec=np.array(e))), L, e)

    moment('mom1', vec(n, 1), spd(n, 1))
    natural('nat1', spd(n, 3), vec(n, 2))
    g['factor'] = ((lambda: Gaussian.as_factor(n)), np.zeros((n, n)), np.zeros(n))
    moment('mom2', vec(n, 4), spd(n, 2) * 4, arg=list(vec(n, 4)))
    g['marginal'] = ((lambda: Gaussian.as_marginal(n)), 1e-10 * np.eye(n), np.zeros(n))
    natural('neg', -spd(n, 5), vec(n, 3))
    g['fromnat'] = ((lambda: Gaussian.from_natural(np.array(2 * spd(n, 4)), np.array(vec(n, 6)))),
                    2 * spd(n, 4), vec(n, 6))
    moment('tiny', vec(n, 5), spd(n, 4) * 1e-6)
    g['gfactor'] = ((lambda: GaussianFactor(n)), np.zeros((n, n)), np.zeros(n))
    if n > 1:
        v = vec(n, 7)
        natural('rank1', np.outer(v, v), vec(n, 8))
    return g


def cases(tier):
    out = []
    quick = tier == 'quick'
    for n in (1, 2, 3):
        names = list(generators_names(n))
        for read in READS:
            for a in names:
                out.append({'kind': 'chain', 'dim': n, 'read': read, 'root': a,
                            'depth': 3 if (quick and n < 3) else (2 if quick else (4 if n == 1 else 3)),
                            'wide': (read == 'none') or not quick})
    for n in (4, 5, 8):
        for read in READS:
            for a in generators_names(n):
                out.append({'kind': 'chain', 'dim': n, 'read': read, 'root': a, 'depth': 2 if n < 8 or not quick else 1,
                            'wide': not quick})
    for n in (1, 2):
        for a, b in itertools.product(generators_names(n), repeat=2):
            out.append({'kind': 'tree', 'dim': n, 'a': a, 'b': b})
    return out


READS = ('none', 'moments', 'naturals', 'everything')


def generators_names(n):
    base = ['mom1', 'nat1', 'factor', 'mom2', 'marginal', 'neg', 'fromnat', 'tiny', 'gfactor']
    return base + (['rank1'] if n > 1 else [])


class Val:
    """reference value: precision, shift, and the magnitude of the largest operand that went into it"""
    __slots__ = ('L', 'e', 's', 't')

    def __init__(self, L, e, s=None, t=None):
        self.L, self.e = L, e
        self.s = float(np.max(np.abs(L))) if s is None else s
        self.t = float(np.max(np.abs(e))) if t is None else t

    def add(self, o, sign):
        return Val(self.L + sign * o.L, self.e + sign * o.e, self.s + o.s, self.t + o.t)

    def pow(self, p):
        return Val(p * self.L, p * self.e, abs(p) * self.s, abs(p) * self.t)


def reading(x, val, how):
    """Observe an operand before using it. Reading mean/cov of an improper state may fail; it must not change it."""
    if how == 'none':
        return
    if how in ('naturals', 'everything'):
        x.precision, x.shift, x.dim
    if how in ('moments', 'everything'):
        try:
            x.mean, x.cov
        except Exception:
            if conditioned(val):
                raise
    if how == 'everything':
        repr(x), str(x), x.copy()


def conditioned(v):
    w = np.linalg.eigvalsh(v.L)
    return w[0] > 1e-7 * max(v.s, abs(w[-1])) and w[0] > 1e-9


def verify(rec, x, v, expr):
    tol = 1e-8
    rec.close(x.precision, v.L, 'precision of %s' % expr, rtol=0, atol=tol * max(v.s, 1e-12))
    rec.close(x.shift, v.e, 'shift of %s' % expr, rtol=0, atol=tol * max(v.t, v.s, 1e-12))
    if conditioned(v):
        C = np.linalg.inv(v.L)
        m = C @ v.e
        sd = np.sqrt(np.abs(np.diag(C)))
        c = np.max(np.abs(C))
        # first-order effect of rounding errors of relative size 1e-12 in the operands
        rec.close(x.cov, C, 'covariance of %s' % expr, rtol=1e-8, scale=np.outer(sd, sd), atol=1e-12 * n1(v.s) * c * c)
        rec.close(x.mean, m, 'mean of %s' % expr, rtol=1e-8, scale=sd + np.abs(m),
                  atol=1e-12 * c * (v.t + v.s * np.max(np.abs(m))) * len(m))


def n1(s):
    return max(s, 1e-300)


def run(case, rec):
    n = case['dim']
    gens = generators(n)
    if case['kind'] == 'tree':
        return tree(case, rec, gens)
    how = case['read']
    operands = list(gens) if case['wide'] else ['mom1', 'nat1', 'factor', 'neg']
    # the generators live for the whole search, so a change to an operand is seen by later expressions
    live = {}
    for k in gens:
        x = gens[k][0]()
        v = Val(gens[k][1], gens[k][2])
        reading(x, v, how)
        live[k] = (x, v)
    root = live[case['root']]
    frontier = [(root[0], root[1], case['root'])]
    verify(rec, gens[case['root']][0](), root[1], case['root'])
    rec.state(n, root[1].L, root[1].e)
    for depth in range(case['depth'] - 1):
        nxt = []
        for x, v, expr in frontier:
            results = []
            for k in operands:
                g, gv = live[k]
                results.append((lambda: x * g, v.add(gv, 1), '(%s * %s)' % (expr, k)))
                results.append((lambda: g * x, gv.add(v, 1), '(%s * %s)' % (k, expr)))
                results.append((lambda: x / g, v.add(gv, -1), '(%s / %s)' % (expr, k)))
                results.append((lambda: g / x, gv.add(v, -1), '(%s / %s)' % (k, expr)))
                for f, rv, ex in results[-4:]:
                    y = f()
                    rec.step()
                    new = rec.state(n, rv.L, rv.e)
                    if new and np.max(np.abs(rv.L)) > 1e-9:
                        rec.outcome(n, rv.L, rv.e)
                    reading(y, rv, how)
                    verify(rec, y, rv, ex)
                    if new:
                        nxt.append((y, rv, ex))
            for p in POWERS:
                y = x ** p
                rv = v.pow(p)
                rec.step()
                reading(y, rv, how)
                verify(rec, y, rv, '(%s ** %s)' % (expr, p))
                if rec.state(n, rv.L, rv.e):
                    rec.outcome(n, rv.L, rv.e)
                    nxt.append((y, rv, '(%s ** %s)' % (expr, p)))
            # the operand itself must still be what it was
            verify(rec, x, v, expr + ' after use as an operand')
        rec.ran(len(nxt))
        rec.trace(len(nxt))
        frontier = nxt
    for k, (x, v) in live.items():
        verify(rec, x, v, k + ' after the search')


def tree(case, rec, gens):
    """(a op b) op' (c op'' d) for all c, d and operators: laws that need two compound operands"""
    ops = [('*', 1), ('/', -1)]
    a, b = case['a'], case['b']

    def make(k):
        return gens[k][0](), Val(gens[k][1], gens[k][2])

    def app(op, x, y):
        return (x[0] * y[0], x[1].add(y[1], 1)) if op == '*' else (x[0] / y[0], x[1].add(y[1], -1))

    sel = ['mom1', 'nat1', 'factor', 'neg', 'tiny']
    for o1, _ in ops:
        left = app(o1, make(a), make(b))
        for c, d in itertools.product(sel, repeat=2):
            for o2, _ in ops:
                right = app(o2, make(c), make(d))
                for o3, _ in ops:
                    y, v = app(o3, left, right)
                    verify(rec, y, v, '(%s%s%s)%s(%s%s%s)' % (a, o1, b, o3, c, o2, d))
                    y2 = (y ** 0.5) ** 2
                    verify(rec, y2, v, '(((%s%s%s)%s(%s%s%s))**.5)**2' % (a, o1, b, o3, c, o2, d))
                    rec.step(2)
                    rec.ran()
                    rec.trace()
                    if rec.state(case['dim'], v.L, v.e):
                        rec.outcome(case['dim'], v.L, v.e)
