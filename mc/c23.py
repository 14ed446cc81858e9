"""C23: every crash point (around each model evaluation, SQL statement and commit) and every failure point of a logged run."""
import contextlib
import io
import itertools
import math
import os
import shutil
import sqlite3
import tempfile

import numpy as np

from . import models

ID = 'C23'
TITLE = 'EP logging is crash-consistent: committed rows are complete iterations'
LEVEL = 'fault_enumeration'
RULE = ('a logged run is interrupted at every point - before and after each model evaluation, SQL statement and commit - by '
        'copying the database files as a kill would leave them, by really killing a forked process there, or by making the '
        'model raise there; what a fresh connection reads is compared with the rows computed independently, and the run is '
        'repeated on every distinct remainder; non-trivial: distinct (configuration, crash point)')
ASSUMPTIONS = ['a killed process leaves the operating system\'s view of the files (power loss is left to SQLite)']

COLS = {'plain': ('Transform', 'Seed', 'Iter', 'Power', 'Damping'),
        'bearings': ('Transform', 'Quantity', 'Seed', 'Iter', 'Power', 'Damping')}


def cases(tier):
    out = []
    q = tier == 'quick'
    grid = [('sin1', ['TT'], 1, 1), ('sin1', ['UT', 1, 2, 1], .5, .8), ('pend2', ['UT', 1, 2, 1], 1, .5), ('UNGM', ['UT', 1, 2, 2], .7, .9),
            ('polar2', ['TT'], .5, 1), ('BOTT', ['TT'], 1, 1)]
    if not q:
        grid += [('lv3', ['UT', 1, 2, 1], .8, .6), ('exp1', ['TT'], 1, .7), ('BOT', ['UT', 1, 2, 1], .9, 1), ('UNGM', ['TT'], .3, 1)]
    for (name, tr, a, g), N, K in itertools.product(grid, (1, 2) if q else (1, 2, 3, 5), (1, 3) if q else (1, 2, 4, 6)):
        for logger in ('plain', 'bearings'):
            if logger == 'bearings' and name != 'BOTT' or logger == 'plain' and name == 'BOTT' and q:
                continue
            if q and name in ('BOTT', 'UNGM') and (N, K) not in ((1, 3), (2, 3)):
                continue
            base = {'model': name, 'trans': tr, 'alpha': a, 'gamma': g, 'N': N, 'K': K, 'logger': logger}
            for start, before in ((0, 'other'), (7, 'other'), (0, 'stale'), (0, 'partial')):
                c = dict(base, start=start, before=before)
                out.append(dict(c, how='copy'))
                if start == 0 and before != 'partial':
                    out.append(dict(c, how='raise'))
                if before != 'partial' and start == 0 and (not q or name in ('sin1', 'BOTT') and N == 1):
                    out.append(dict(c, how='kill'))
            out.append(dict(base, start=0, before='other', how='blind'))
    # more iterations than any batch of commits
    for logger, name in (('plain', 'sin1'), ('bearings', 'BOTT')):
        for pr in (False, True):
            out.append({'model': name, 'trans': ['TT'], 'alpha': 1, 'gamma': 1, 'N': 1, 'K': 13, 'logger': logger, 'start': 0,
                        'before': 'other', 'how': 'copy', 'print': pr})
    return out


# ---------------------------------------------------------------------------------------------------- instrumented run
class Crash(Exception):
    pass


class World:
    def __init__(self, case):
        from Systems import DynamicSystemModel
        name = case['model']
        if name in models.BENCH:
            s = models.bench(name)
            f, h = s.transition, s.measurement
            np.random.seed(2)
            data = s.simulate(case['N'])
            self.xs, self.ys = [x for x, _ in data], [np.ravel(y) for _, y in data]
        else:
            m = models.NONLIN()[name]
            s, f, h = m.system(), m._trans, m._meas
            self.ys = [.4 * models.alphabet(m.p)[i % 3] for i in range(case['N'])]
            self.xs = [m.m0 + .1 * (i + 1) for i in range(case['N'])]
        self.case, self.base, self.f, self.h = case, s, f, h
        self.calls = 0
        self.hook = None
        self.n = s.system_dim
        self.cls = DynamicSystemModel

    def point(self, what):
        if self.hook is not None:
            self.hook(what)

    def nodes(self):
        from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
        s, c = self.base, self.case
        sysm = self.cls(system_dim=s.system_dim, measurement_dim=s.measurement_dim, transition=self.guard(self.f),
                        measurement=self.guard(self.h), system_noise=s.system_noise, measurement_noise=s.measurement_noise,
                        init_distribution=s.init_state, dt=s.dt)
        est = models.make_estimator(sysm, c['trans'], c['trans'], self.n, alpha=c['alpha'], gamma=c['gamma'])
        nodes = node_estimator(nodes=build_nodes(N=c['N'], dim=self.n), estimator=est)
        self.calls = 0
        return node_system(nodes=nodes, system_model=sysm, measurements=self.ys)

    def guard(self, g):
        def call(*a, **k):
            self.calls += 1
            self.point('model call')
            out = g(*a, **k)
            self.point('model return')
            return out
        return call

    # -- what each iteration should log, and how many model calls had been made by its end
    def reference(self):
        from ExpectationPropagation.Iterations import ep_fwd_back_updates
        nodes = self.nodes()
        rows, calls = [], [0]
        for _ in range(self.case['K']):
            ep_fwd_back_updates(nodes)
            calls.append(self.calls)
            rows.append(self.metrics([(np.array(v.marginal.mean), np.array(v.marginal.cov)) for v in nodes]))
        return rows, calls

    def metrics(self, states):
        idx = {'all': list(range(self.n))}
        if self.case['logger'] == 'bearings':
            idx = {'position': [0, 2], 'velocity': [1, 3], 'angle': [4]}
        out = {}
        for q, ix in idx.items():
            se, nl = [], []
            for (m, P), x in zip(states, self.xs):
                d = np.ravel(m)[ix] - np.ravel(x)[ix]
                S = P[np.ix_(ix, ix)]
                se.append(float(d @ d))
                nl.append(.5 * float(d @ np.linalg.solve(S, d)) + .5 * math.log(np.linalg.det(S)) + .5 * len(ix) * math.log(2 * math.pi))
            out[q] = (math.sqrt(sum(se) / len(se)), sum(nl) / len(nl))
        return out

    def module(self):
        if self.case['logger'] == 'bearings':
            from Experiments import EP_Sweep_BearingsOnly as M
            return M.create_experiment_table, M.insert_experiment_data, M.ep_iterations, M.Exp_Data
        from ExpectationPropagation.Iterations import ep_iterations
        from Utils import Database as D
        return D.create_experiment_table, D.insert_experiment_data, ep_iterations, D.Exp_Data

    def exp_data(self, **kw):
        d = dict(Transform='UT', Quantity=None, Seed=3, Iter=self.case['start'], Power=.3, Damping=.8, RMSE=0., NLL=0., Mean=0.,
                 Variance=0., Nodes=[])
        d.update(kw)
        E = self.module()[3]
        return E(**{k: d[k] for k in E._fields})

    def run(self, conn, x_true=True):
        with contextlib.redirect_stdout(io.StringIO()):
            self.module()[2](self.nodes(), max_iter=self.case['K'], x_true=self.xs if x_true else None, conn=conn,
                             exp_data=self.exp_data(), table_name='T', print_result=self.case.get('print', self.case['start'] != 0))


def connection(world, path, hooked=True):
    if not hooked:
        c = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
        c.execute('PRAGMA synchronous=OFF')
        return c

    class Cur(sqlite3.Cursor):
        def execute(self, *a):
            world.point('before statement')
            r = super().execute(*a)
            world.point('after statement')
            return r

        def executemany(self, *a):
            world.point('before statement')
            r = super().executemany(*a)
            world.point('after statement')
            return r

    class Conn(sqlite3.Connection):
        def cursor(self, *a):
            return super().cursor(Cur)

        def execute(self, *a):
            return self.cursor().execute(*a)

        def executemany(self, *a):
            return self.cursor().executemany(*a)

        def commit(self):
            world.point('before commit')
            super().commit()
            world.point('after commit')

    hook, world.hook = world.hook, None
    c = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES, factory=Conn)
    c.execute('PRAGMA synchronous=OFF')
    world.hook = hook
    return c


def contents(path, logger):
    """{iteration: {quantity: (rmse, nll)}} for the run's own key, and all other rows."""
    conn = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
    try:
        rows = conn.execute('SELECT * FROM T').fetchall()
    finally:
        conn.close()
    mine, other = {}, []
    k = len(COLS[logger])
    for r in rows:
        d = dict(zip(COLS[logger], r[:k]))
        if (d['Transform'], d['Seed'], d['Power'], d['Damping']) == ('UT', 3, .3, .8):
            slot = mine.setdefault(d['Iter'], {})
            q = d.get('Quantity', 'all')
            slot[q] = 'duplicate' if q in slot else (r[k], r[k + 1])
        else:
            other.append(tuple(repr(v) for v in r))
    return mine, sorted(other)


def prepare(world, path, want):
    """Rows already in the store: other keys, and stale or correct rows of this very run."""
    create, insert, _, E = world.module()
    conn = connection(world, path, hooked=False)
    create(conn.cursor(), 'T')
    qs = sorted(want[0])

    def put(**kw):
        d = world.exp_data(**kw)._asdict()
        d.pop('Nodes', None)
        if 'Mean' in d:
            d['Mean'], d['Variance'] = [], []
        insert(conn.cursor(), 'T', d)
    start = world.case['start']
    for q in qs:
        quant = {} if q == 'all' else {'Quantity': q}
        for kw in (dict(Seed=4), dict(Transform='TT'), dict(Power=.1 + .2), dict(Damping=1.), dict(Iter=start)):
            d = dict(Iter=start + 1, RMSE=-1., NLL=-2.)
            d.update(kw)
            d.update(quant)
            put(**d)
        if world.case['before'] == 'stale':
            for i in range(world.case['K']):
                put(Iter=start + 1 + i, RMSE=-5. - i, NLL=-6., **quant)
        if world.case['before'] == 'partial':
            for i in range(world.case['K'] // 2):
                put(Iter=start + 1 + i, RMSE=want[i][q][0], NLL=want[i][q][1], **quant)
    conn.commit()
    conn.close()


def judge(rec, world, path, want, finished, what, sub, other0):
    """The store holds complete, correct rows for a prefix of at least `finished` iterations; the rest is as before."""
    case = world.case
    mine, other = contents(path, case['logger'])
    mine.pop(float(case['start']), None)
    rec.require(other == other0, '%s: records of other configurations changed: %s instead of %s' % (what, other, other0), case=sub)
    K, start = case['K'], case['start']
    done = 0
    tail = False
    for i in range(K):
        got = mine.pop(float(start + 1 + i), None)
        if got is not None and 'duplicate' in got.values():
            rec.fail('%s: iteration %d is stored more than once' % (what, i + 1), case=sub)
        fresh = got is not None and set(got) == set(want[i]) and all(near(got[q], want[i][q]) for q in want[i])
        stale = {q: (-5. - i, -6.) for q in want[i]} if case['before'] == 'stale' else None
        if fresh and not tail:
            done += 1
        elif case['before'] == 'partial' and i < K // 2 and fresh:
            pass
        elif got == stale:
            tail = True
        else:
            rec.fail('%s: iteration %d is stored as %s; it should be %s%s' % (
                what, i + 1, got, want[i], ' (an earlier one is missing)' if tail else ''), case=sub)
    rec.require(not mine, '%s: rows of iterations %s that were never run' % (what, sorted(mine)), case=sub)
    rec.require(done >= finished, '%s: only %d of %d finished iterations are stored' % (what, done, finished), case=sub)
    return done


def near(a, b):
    return all(isinstance(x, float) and abs(x - y) <= 1e-7 + 1e-6 * abs(y) for x, y in zip(a, b))


def finished_at(calls, c):
    """Number of iterations certainly over when the c-th model call is under way."""
    return max(k for k in range(len(calls)) if calls[k] < c or calls[k] == 0)


def run(case, rec):
    with tempfile.TemporaryDirectory(prefix='c23-', dir='.') as d:
        w = World(case)
        want, calls = w.reference()
        path = os.path.join(d, 'a.db')
        prepare(w, path, want)
        base = os.path.join(d, 'base.db')
        shutil.copy(path, base)
        mine0, other0 = contents(base, case['logger'])
        if 'at' in case:
            only = case['at']
        else:
            only = None
        globals()['how_' + case['how']](case, rec, d, w, want, calls, path, base, other0, only)


def rerun(rec, w, path, want, what, sub, other0):
    hook, w.hook = w.hook, None
    conn = connection(w, path, hooked=False)
    w.run(conn)
    conn.close()
    w.hook = hook
    done = judge(rec, w, path, want, w.case['K'], 'run again on what %s left' % what, sub, other0)
    rec.require(done == w.case['K'], 'run again on what %s left: %d iterations' % (what, done), case=sub)
    rec.ran()
    rec.trace()


def how_copy(case, rec, d, w, want, calls, path, base, other0, only):
    snaps = []

    def hook(what):
        k = len(snaps)
        name = os.path.join(d, 's%d.db' % k)
        for ext in ('', '-journal', '-wal', '-shm'):
            if os.path.exists(path + ext):
                shutil.copy(path + ext, name + ext)
        snaps.append((name, '%s %d' % (what, k), w.calls if what.startswith('model') else w.calls + .5))
    conn = connection(w, path)
    w.hook = hook
    w.run(conn)
    w.hook = None
    conn.close()
    judge(rec, w, path, want, case['K'], 'after the whole run', dict(case), other0)
    rec.require(len(snaps) >= calls[-1], 'the run made %d model calls instead of %d' % (len(snaps), calls[-1]))
    seen = set()
    for k, (name, what, c) in enumerate(snaps):
        if only is not None and k != only:
            continue
        sub = dict(case, at=k)
        done = judge(rec, w, name, want, finished_at(calls, c) if 'model' in what else 0, 'killed at ' + what, sub, other0)
        rec.ran()
        rec.outcome(case, k)
        rec.state(case, done)
        rec.step()
        mark = repr(contents(name, case['logger']))
        if mark not in seen:
            seen.add(mark)
            rerun(rec, w, name, want, 'a kill at ' + what, sub, other0)
    rec.count('crash_points', len(snaps))


def how_raise(case, rec, d, w, want, calls, path, base, other0, only):
    """The model fails numerically at its c-th call; whoever owns the connection then commits or closes it."""
    for c in range(1, calls[-1] + 1):
        if only is not None and c != only:
            continue
        sub = dict(case, at=c)
        for after, error in (('commit', np.linalg.LinAlgError), ('commit', Crash), ('close', Crash)):
            name = os.path.join(d, 'r.db')
            shutil.copy(base, name)

            def hook(what):
                if what == 'model call' and w.calls == c:
                    raise error('planned')
            conn = connection(w, name, hooked=False)
            w.hook = hook
            raised = False
            try:
                w.run(conn)
            except error:
                raised = True
            w.hook = None
            if after == 'commit':
                conn.commit()
            conn.close()
            what = 'a failure at model call %d, then %s' % (c, after)
            if raised:
                rec.count('failures_raised')
                judge(rec, w, name, want, finished_at(calls, c), what, sub, other0)
                if after == 'commit':
                    rerun(rec, w, name, want, what, sub, other0)
            else:
                rec.count('failures_absorbed')      # the estimator skipped the update: C14's matter
            rec.ran()
            rec.step()
            rec.outcome(case, c)
            os.unlink(name)


def how_kill(case, rec, d, w, want, calls, path, base, other0, only):
    """Really kill a forked process at every point."""
    k = 0 if only is None else only
    while True:
        name = os.path.join(d, 'k.db')
        for ext in ('', '-journal', '-wal', '-shm'):
            if os.path.exists(name + ext):
                os.unlink(name + ext)
        shutil.copy(base, name)
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                count = [0]

                def hook(what):
                    if count[0] == k:
                        os.write(wr, ('%s|%d' % (what, w.calls)).encode())
                        os._exit(9)
                    count[0] += 1
                w.hook = None
                conn = connection(w, name)
                w.hook = hook
                w.run(conn)
                os._exit(0)
            except BaseException:
                os._exit(7)
        os.close(wr)
        said = os.read(r, 1000).decode()
        os.close(r)
        code = os.waitpid(pid, 0)[1]
        sub = dict(case, at=k)
        rec.ran()
        rec.step()
        if os.WIFEXITED(code) and os.WEXITSTATUS(code) == 0:
            judge(rec, w, name, want, case['K'], 'after the whole run', dict(case), other0)
            break
        rec.require(os.WIFEXITED(code) and os.WEXITSTATUS(code) == 9, 'the run failed (status %d)' % code, case=sub)
        what, c = said.split('|')
        judge(rec, w, name, want, finished_at(calls, int(c)) if 'model' in what else 0, 'killed at %s, point %d' % (what, k), sub, other0)
        rerun(rec, w, name, want, 'a kill at %s, point %d' % (what, k), sub, other0)
        rec.outcome(case, k)
        k += 1
        if only is not None:
            break
    rec.count('real_kills', k)


def how_blind(case, rec, d, w, want, calls, path, base, other0, only):
    """Without ground truth nothing is logged, and the iterations still run."""
    conn = connection(w, path, hooked=False)
    w.run(conn, x_true=False)
    conn.commit()
    conn.close()
    mine, other = contents(path, case['logger'])
    rec.require(other == other0 and set(mine) <= {float(case['start'])}, 'rows %s logged without ground truth' % (mine,))
    rec.require(w.calls == calls[-1], '%d model calls instead of %d without ground truth' % (w.calls, calls[-1]))
    rec.ran()
    rec.outcome(case)
