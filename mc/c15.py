"""C15: an estimator whose projections answer from a finite alphabet of distributions; every sequence of (update, answer)
pairs, judged in natural parameters. Plus every schedule of the real projections on models that provoke improper results."""
import itertools

import numpy as np

from . import graph, models, ref

ID = 'C15'
TITLE = 'every marginal is proper; improper updates are rejected whole, proper ones applied whole'
LEVEL = 'model_checking'
RULE = ('every sequence of (update kind, projected distribution) up to the depth bound for every (alpha, gamma, dimension); '
        'after each the state equals the accept-whole / reject-whole outcome; and every schedule of real updates up to '
        'the depth bound keeps every marginal proper; non-trivial: distinct graph state')
ASSUMPTIONS = ['when the resulting precision is within 1e-7 (relative) or 1e-9 (the library regards 1e-10 as zero) of the boundary of the positive definite cone either '
               'outcome is accepted, but still all-or-nothing',
               'answers have standard deviations between 1e-2 and 1e3, away from the 1e10 variance that stands for vacuous']

AG = [(1, 1), (1, .5), (.5, 1), (.5, .5), (.25, .9), (2., 1), (1.5, .3), (1, 1.5), (2., 1.9)]


def answers(n):
    """(name, mean, cov) the projections may return"""
    I = np.eye(n)
    one = np.ones(n)
    rot = I.copy()
    if n > 1:
        rot = np.full((n, n), .9) + .1 * I
    out = [('unit', 0 * one, I), ('sharp', one, 1e-4 * I), ('vague', -one, 1e6 * I), ('shift', 3 * one, .5 * I),
           ('mid', -2 * one, 4 * I), ('zero', one, 0 * I), ('negative', one, -I), ('nan', one * np.nan, I),
           ('nancov', one, I * np.nan), ('LinAlgError', None, None)]
    if n > 1:
        out += [('corr', one, rot), ('anti', 2 * one, np.linalg.inv(rot) / 20.),
                ('aniso', one, np.diag(10. ** np.arange(-2, n - 2))), ('indef', one, I - .8 * (np.ones((n, n))))]
    return out


def cases(tier):
    out = []
    q = tier == 'quick'
    for n in (1, 2) if q else (1, 2, 3):
        for a, g in AG:
            A = [x[0] for x in answers(n)]
            for kind in graph.KINDS:
                for ans in A:
                    out.append({'kind': 'scripted', 'dim': n, 'alpha': a, 'gamma': g, 'depth': (3 if n == 1 else 2) if q else (4 if n == 1 else 3),
                                'first': [kind, ans], 'few': q or n > 1})
    for name in ('sin1', 'exp1', 'polar2') if q else sorted(models.NONLIN()):
        for a, g in AG:
            for tr, me in ((['UT', 1, 2, 1], ['TT']), (['TT'], ['TT']), (['UT', .5, 2, 2], ['UT', 1, 2, 1])):
                if q and (a, tr) == (1, ['TT']):
                    continue
                out.append({'kind': 'real', 'model': name, 'alpha': a, 'gamma': g, 'trans': tr, 'meas': me, 'N': 2,
                            'depth': 3 if q else 5})
    return out


def run(case, rec):
    return globals()[case['kind']](case, rec)


def scripted_graph(case):
    from ExpectationPropagation.Nodes import build_nodes, node_estimator
    from MomentMatching.Estimator import Estimator
    from StateModel import Gaussian
    n = case['dim']
    table = {name: (m, P) for name, m, P in answers(n)}

    class Scripted(Estimator):
        answer = None

        def reply(self, *a, **k):
            if self.answer == 'LinAlgError':
                raise np.linalg.LinAlgError('scripted')
            m, P = table[self.answer]
            return Gaussian(m.copy(), P.copy())

        proj_trans = proj_meas = proj_back = reply

    est = Scripted(trans_map=None, meas_map=None, trans_noise=np.eye(n), meas_noise=np.eye(n), power=case['alpha'],
                   damping=case['gamma'])
    nodes = node_estimator(build_nodes(N=3, dim=n), est)
    for nd in nodes:
        nd.trans_func = nd.meas_func = lambda x, **k: x
        nd.meas = 0.
    nodes[0].prior = Gaussian(np.zeros(n), np.eye(n))
    # neighbours in an ordinary state, so that the cavities they hand over are proper
    for nd in (nodes[0], nodes[2]):
        nd.marginal = Gaussian(np.zeros(n), np.eye(n))
    return nodes, est, table


def scripted(case, rec):
    nodes, est, table = scripted_graph(case)
    a, g, n = case['alpha'], case['gamma'], case['dim']
    letters = list(table)
    if case['few']:
        letters = [x for x in letters if x not in ('nancov', 'zero', 'mid')]
    moves = [(k, x) for k in graph.KINDS for x in letters]
    vals = graph.values(nodes)[1]
    start = [ref.NG(*v) for v in vals]
    frontier = [(vals, start, [])]
    if 'path' in case:
        plan = [[tuple(m)] for m in case['path']]
    else:
        plan = [[tuple(case['first'])]] + [moves] * (case['depth'] - 1)
    for level in plan:
        nxt = []
        for have, r, path in frontier:
            for move in level:
                restore(nodes[1], have)
                after, nr = transition(case, rec, nodes, est, table, r, have, move, path)
                if nr is not None and rec.state(n, a, g, graph.coarse([after])):
                    rec.outcome(n, a, g, graph.coarse([after]))
                    nxt.append((after, nr, path + [list(move)]))
        rec.ran(len(nxt))
        rec.trace(len(nxt))
        frontier = nxt


def restore(node, vals):
    """Put a node into a state given in natural parameters (the states reached here were reached so by the code)."""
    from StateModel import Gaussian
    for name, (L, e) in zip(graph.NAMES, vals):
        setattr(node, name, Gaussian.from_natural(L.copy(), e.copy()))


def transition(case, rec, nodes, est, table, r, have, move, path):
    a, g = case['alpha'], case['gamma']
    kind, ans = move
    replay = dict(case, path=path + [list(move)])
    what = 'after %s (alpha=%s, gamma=%s)' % ([tuple(p) for p in path] + [move], a, g)
    type(est).answer = ans
    try:
        graph.apply(nodes, (kind, 1))
    except Exception as e:
        rec.fail('%s: %s escaped: %s' % (what, type(e).__name__, e), case=replay)
    rec.step()
    after = graph.values([nodes[1]])[0]
    old = nodes_state(have)
    # the outcome of the update according to the equations
    j = graph.MESSAGE[kind]
    verdict, new = 'reject', list(old)
    m, P = table[ans] if ans != 'LinAlgError' else (None, None)
    if P is not None and np.all(np.isfinite(m)) and np.all(np.isfinite(P)) and np.linalg.eigvalsh(P)[0] > 0:
        p = ref.ng(m, P)
        if kind == 'fwd':
            msg = old[j] ** (1 - g) * p ** g
            q = old[0] * (msg / old[j]) ** (1 / a)
        else:
            ratio = p / old[0]
            msg = old[j] * ratio ** g
            q = old[0] * ratio ** (g / a)
        w = np.linalg.eigvalsh(q.L)
        scale = max(np.max(np.abs(x.L)) for x in (old[0], p, msg, q))
        band = max(1e-7 * scale, 1e-9)
        verdict = 'accept' if w[0] > band else 'reject' if w[0] < -band else 'either'
        if verdict == 'accept' and np.linalg.cond(q.L) > 1e9:
            verdict = 'either'
        new = list(old)
        new[0], new[j] = q, msg
    got_old = all(same(x, y) for x, y in zip(after, old))
    got_new = all(near(x, y, max(np.max(np.abs(z.L)) for z in (old[0], old[j], new[0], new[j])))
                  for x, y in zip(after, new)) and verdict != 'reject'
    rec.count(verdict)
    if verdict == 'accept' and not got_new:
        rec.fail('%s: the update has a proper result and must be applied as a whole: marginal %s and %s %s expected, got '
                 '%s and %s' % (what, show(new[0]), graph.NAMES[j], show(new[j]), after[0], after[j]), case=replay)
    if verdict == 'reject' and not got_old:
        rec.fail('%s: the update has no proper result and must be rejected as a whole, but the node changed from %s to %s'
                 % (what, [show(x) for x in old], after), case=replay)
    if verdict == 'either' and not (got_old or got_new):
        rec.fail('%s: the update was neither applied nor rejected as a whole: before %s, after %s'
                 % (what, [show(x) for x in old], after), case=replay)
    if verdict == 'either' and not got_old:
        return after, None               # numerically on the boundary: nothing further is defined
    check_proper(rec, nodes[1].marginal, what, replay)
    return after, (old if got_old else new)


def nodes_state(vals):
    return [ref.NG(L, e) for L, e in vals]


def show(q):
    return '(precision %s, shift %s)' % (q.L.tolist(), q.e.tolist())


def same(x, q):
    return np.array_equal(x[0], q.L) and np.array_equal(x[1], q.e)


def near(x, q, scale):
    return np.max(np.abs(x[0] - q.L)) <= 1e-7 * scale and np.max(np.abs(x[1] - q.e)) <= 1e-6 * max(scale, np.max(np.abs(q.e)))


def check_proper(rec, q, what, replay):
    mean, cov, L, e = (np.array(v, dtype=float) for v in (q.mean, q.cov, q.precision, q.shift))
    for name, v in (('mean', mean), ('covariance', cov), ('precision', L), ('shift', e)):
        rec.require(np.all(np.isfinite(v)), '%s: the %s of the marginal is not finite: %s' % (what, name, v), case=replay)
    for name, v in (('covariance', cov), ('precision', L)):
        s = np.max(np.abs(v))
        rec.require(np.max(np.abs(v - v.T)) <= 1e-9 * s, '%s: the %s of the marginal is not symmetric: %s' % (what, name, v), case=replay)
        rec.require(np.linalg.eigvalsh((v + v.T) / 2)[0] > -1e-12 * s,
                    '%s: the %s of the marginal is not positive definite: %s' % (what, name, v), case=replay)


def real(case, rec):
    m = models.NONLIN()[case['model']]
    est = models.make_estimator(m, case['trans'], case['meas'], m.n, alpha=case['alpha'], gamma=case['gamma'])
    ys = [models.alphabet(m.p)[i % 3] * 1.5 for i in range(case['N'])]
    nodes = models.make_nodes(m, ys, est)
    rec.state(case['model'], case['alpha'], case['gamma'], graph.coarse(graph.values(nodes)))
    frontier = [(nodes, [])]
    plan = [[tuple(p)] for p in case['path']] if 'path' in case else [graph.ops(case['N'])] * case['depth']
    for level in plan:
        nxt = []
        for nodes, path in frontier:
            for op in level:
                c = graph.clone(nodes)
                replay = dict(case, path=path + [list(op)])
                what = 'after %s on %s, alpha=%s, gamma=%s, %s/%s' % (path + [list(op)], case['model'], case['alpha'],
                                                                     case['gamma'], case['trans'], case['meas'])
                try:
                    graph.apply(c, op)
                except Exception as e:
                    rec.fail('%s: %s escaped: %s' % (what, type(e).__name__, e), case=replay)
                rec.step()
                check_proper(rec, c[op[1]].marginal, what, replay)
                after = graph.values(c)
                if rec.state(case['model'], case['alpha'], case['gamma'], case['trans'], graph.coarse(after)):
                    rec.outcome(case['model'], case['alpha'], case['gamma'], case['trans'], graph.coarse(after))
                    nxt.append((c, path + [list(op)]))
        rec.ran(len(nxt))
        rec.trace(len(nxt))
        frontier = nxt
