"""C11: breadth-first search over schedules of single-node updates; the product invariant and locality in every
transition."""
import numpy as np

from . import c15, graph, models

ID = 'C11'
TITLE = 'marginals are the product of their messages, and updates are local'
LEVEL = 'model_checking'
RULE = ('every schedule of forward/measurement/backward updates at any node up to the depth bound (states with equal '
        'messages and marginals are merged), for every model and (alpha, gamma); non-trivial: distinct graph state')
ASSUMPTIONS = ['states are merged when all natural parameters agree to 5 digits: an update reads nothing else '
               '(locality and history independence are checked by C19/C12)',
               'the product is judged to 1e-6 of the largest message involved; merged states differ below that']

AG = [(1, 1), (1, .5), (.5, 1), (.5, .5), (.8, .3), (.25, 1), (2., 1), (.3, .4), (.1, .2), (1.5, .6)]


def configs(tier):
    lin, non = models.LIN(), models.NONLIN()
    out = []
    tr = [['UT', 1, 2, 1], ['TT'], ['UT', 1, 2, 3]]
    names = [('lin', n) for n in ('1tv', '2rot', '3')] + [('non', n) for n in ('sin1', 'pend2', 'polar2')]
    if tier != 'quick':
        names += [('lin', n) for n in ('1', '2o', '2tv', '3tv', '5')] + [('non', n) for n in ('exp1', 'lv3')]
    for i, (fam, name) in enumerate(names):
        for j, (a, g) in enumerate(AG):
            out.append((fam, name, tr[(i + j) % 3], tr[(i + j + 1) % 3], a, g))
    return out


def cases(tier):
    out = []
    for fam, name, t, me, a, g in configs(tier):
        base = {'family': fam, 'model': name, 'trans': t, 'meas': me, 'alpha': a, 'gamma': g}
        if tier == 'quick':
            out.append(dict(base, N=1, depth=5, warm=0))
            out.append(dict(base, N=2, depth=4, warm=0))
            out.append(dict(base, N=3, depth=2, warm=0))
            out.append(dict(base, N=3, depth=2, warm=1))       # also from the state after one sweep
        else:
            out.append(dict(base, N=1, depth=8, warm=0))
            out.append(dict(base, N=2, depth=6, warm=0))
            for w in (0, 1, 2):
                out.append(dict(base, N=3, depth=4, warm=w))
            out.append(dict(base, N=4, depth=3, warm=1))
    # projections answering from a small alphabet: updates that are rejected in the middle, at every node
    for n in (1, 2):
        for a, g in AG if tier != 'quick' else [(1, 1), (.5, 1), (.25, 1), (2., 1)][:4 if n == 1 else 2]:
            for kind in graph.KINDS:
                for ans in ANSWERS:
                    out.append({'scripted': True, 'dim': n, 'alpha': a, 'gamma': g, 'first': [kind, 1, ans],
                                'depth': (3 if n == 1 else 2) if tier == 'quick' else (4 if n == 1 else 3)})
    return out


ANSWERS = ('unit', 'vague', 'shift', 'mid', 'LinAlgError')


def scripted(case, rec):
    nodes, est, _ = c15.scripted_graph(case)
    start = graph.values(nodes)
    base = [v[0] for v in start]
    moves = [(k, i, x) for k in graph.KINDS for i in (0, 1) for x in ANSWERS if i == 1 or x in ('vague', 'LinAlgError')]
    frontier = [(nodes, start, [])]
    plan = [[tuple(p)] for p in case['path']] if 'path' in case else [[tuple(case['first'])]] + [moves] * (case['depth'] - 1)
    for level in plan:
        nxt = []
        for nodes, before, path in frontier:
            for kind, at, ans in level:
                c = graph.clone(nodes)
                type(est).answer = ans            # on the class: the copied graph may hold a copied estimator
                after = transition(rec, dict(case, model='scripted answers'), c, before, (kind, at), path, base,
                                   label=[kind, at, ans])
                if rec.state(case['dim'], case['alpha'], case['gamma'], graph.coarse(after)):
                    rec.outcome(case['dim'], case['alpha'], case['gamma'], graph.coarse(after))
                    nxt.append((c, after, path + [[kind, at, ans]]))
        rec.ran(len(nxt))
        rec.trace(len(nxt))
        frontier = nxt


def build(case):
    m = (models.LIN() if case['family'] == 'lin' else models.NONLIN())[case['model']]
    est = models.make_estimator(m, case['trans'], case['meas'], m.n, alpha=case['alpha'], gamma=case['gamma'])
    ys = [(1. if case['family'] == 'lin' else .4) * models.alphabet(m.p)[i % 3] for i in range(case['N'])]
    return m, models.make_nodes(m, ys, est)


def run(case, rec):
    if case.get('scripted'):
        return scripted(case, rec)
    from ExpectationPropagation import Iterations
    m, nodes = build(case)
    base = [v[0] for v in graph.values(nodes)]
    vals = graph.values(nodes)
    for v in vals:
        for F in v[1:]:
            rec.require(not np.any(F[0]) and not np.any(F[1]), 'a fresh message is not vacuous')
    for _ in range(case['warm']):
        Iterations.ep_fwd_back_updates(nodes)
    start = graph.values(nodes)
    check_product(rec, case, start, base, ['%d sweeps' % case['warm']] if case['warm'] else [])
    rec.state(case['model'], case['alpha'], case['gamma'], case['N'], graph.coarse(start))
    frontier = [(nodes, start, [])]
    all_ops = graph.ops(case['N'])
    if 'path' in case:                                    # replay of one schedule
        for p in case['path']:
            step(rec, case, frontier, tuple(p), base)
        return
    for depth in range(case['depth']):
        nxt = []
        for nodes, before, path in frontier:
            for op in all_ops:
                c = graph.clone(nodes)
                after = transition(rec, case, c, before, op, path, base)
                if rec.state(case['model'], case['alpha'], case['gamma'], case['N'], graph.coarse(after)):
                    rec.outcome(case['model'], case['alpha'], case['gamma'], case['N'], graph.coarse(after))
                    nxt.append((c, after, path + [list(op)]))
        rec.ran(len(nxt))
        rec.trace(len(nxt))
        frontier = nxt


def step(rec, case, frontier, op, base):
    nodes, before, path = frontier[0]
    after = transition(rec, case, nodes, before, op, path, base)
    frontier[0] = (nodes, after, path + [list(op)])


def transition(rec, case, nodes, before, op, path, base, label=None):
    label = label or list(op)
    replay = dict(case, path=path + [label])
    read = graph.settings(nodes)
    graph.apply(nodes, op)
    rec.step()
    for (name, b), (other, a) in zip(read, graph.settings(nodes)):
        if name == other and not np.array_equal(a, b):
            rec.fail('%s update at node %d changed %s (schedule %s)' % (op[0], op[1] + 1, name, path + [label]), case=replay)
    after = graph.values(nodes)
    kind, at = op
    for i, (b, a) in enumerate(zip(before, after)):
        for j, name in enumerate(graph.NAMES):
            if i == at and (j == 0 or j == graph.MESSAGE[kind]):
                continue
            if graph.differs(b[j], a[j], 1e-12):
                rec.fail('%s update at node %d changed %s of node %d (schedule %s)'
                         % (kind, at + 1, name, i + 1, path + [label]), case=replay)
    check_product(rec, case, after, base, path + [label], replay)
    return after


def check_product(rec, case, vals, base, path, replay=None):
    d, i = graph.product_defect(vals, base, case['alpha'])
    if not d <= 1e-6:
        rec.fail('after %s the marginal of node %d differs from its base times its messages^(1/alpha) by %.3g '
                 '(relative; model %s, alpha=%s, gamma=%s)' % (path, i + 1, d, case['model'], case['alpha'], case['gamma']),
                 case=replay)
