"""C22: every sequence of store operations against a dictionary model, plus round trips of every kind of value."""
import itertools
import os
import sqlite3
import tempfile

import numpy as np

ID = 'C22'
TITLE = 'the result store keeps exactly one faithful record per key'
LEVEL = 'model_checking'
RULE = ('every sequence of create/insert/commit/reopen operations up to the depth bound on a real database file, compared with a '
        'dictionary model (own connection after the last operation, a second connection after commits); every ordered pair of '
        'experiment keys; every dtype x shape x layout round trip; non-trivial: distinct database contents reached')
ASSUMPTIONS = ['SQLite itself is trusted; object arrays are outside the array format',
               'closing without commit is not part of the operations (C23 covers interruption)']

D1 = [(np.array([[1.5, -2.]]), np.array([.25])), (np.array([[3., 4.]]), np.array([[7.]]))]
D2 = [(np.array([[9., 9.]]), np.array([-1.])), (np.array([[8., 8.]]), np.array([-2.])), (np.array([[7., 7.]]), np.array([-3.]))]
V1 = dict(RMSE=.5, NLL=1.25, Mean=[], Variance=[])
V2 = dict(RMSE=-3., NLL=7.5, Mean=[1., [2, 'x']], Variance=[np.eye(2)])
K1 = ('UT', 1, 1, .3, 1.)
K2 = ('UT', 1, 2, .3, 1.)

OPS = (['cd', 'A'], ['cd', 'B'], ['ce', 'E'], ['ce', 'F'],
       ['id', 'A', 1, 1], ['id', 'A', 1, 2], ['id', 'A', 2, 1], ['id', 'B', 1, 2],
       ['ie', 'E', 1, 1], ['ie', 'E', 1, 2], ['ie', 'E', 2, 1], ['ie', 'F', 1, 2],
       ['commit'], ['reopen'])
OPS = tuple(tuple(o) for o in OPS)
PREPARE = [('cd', 'A'), ('cd', 'B'), ('ce', 'E'), ('ce', 'F'), ('id', 'A', 1, 1), ('ie', 'E', 1, 1), ('commit',)]
DTYPES = ('f8', 'f4', 'f2', 'i8', 'i4', 'i2', 'i1', 'u1', 'u8', 'b1', 'c16', 'c8', '>f8', '>i4', 'S3', 'U2')
SHAPES = ((), (0,), (1,), (3,), (1, 1), (2, 3), (3, 2), (1, 4), (4, 1), (0, 3), (2, 0), (2, 2, 2), (3, 1, 2), (1, 1, 1, 1), (50, 40))
LAYOUTS = ('C', 'F', 'strided', 'reversed', 'transposed', 'readonly')


def cases(tier):
    q = tier == 'quick'
    out = [{'kind': 'arrays', 'dtypes': [d]} for d in DTYPES]
    out += [{'kind': 'texts', 'table': t} for t in ('plain', 'quantity')]
    out += [{'kind': 'lists'}, {'kind': 'default'}, {'kind': 'ieks'}]
    out += [{'kind': 'keys', 'table': t, 'first': f} for t in ('plain', 'quantity') for f in range(2)]
    for depth, prepared in ((5 if q else 6, 0), (3 if q else 5, 1)):
        for d in range(1, 3):
            out.append({'kind': 'seq', 'depth': d, 'prepared': prepared})
        for d in range(3, depth + 1):
            for h in itertools.product(range(len(OPS)), repeat=min(2, d - 2) if d < 6 else 3):
                if prepared or legal([OPS[i] for i in h]):
                    out.append({'kind': 'seq', 'depth': d, 'head': list(h), 'prepared': prepared})
    return out


def run(case, rec):
    with tempfile.TemporaryDirectory(prefix='c22-', dir='.') as d:
        globals()['do_' + case['kind']](case, rec, d)


# ------------------------------------------------------------------------------------------- model and observation
def canon(v):
    if isinstance(v, np.ndarray):
        return ('array', v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(canon(q) for q in v)
    return (type(v).__name__, v)


def dyn_rows(db, t):
    return {(r[0], r[1]): (canon(r[2]), canon(r[3])) for r in rows(db, t)}


def rows(db, t):
    return db.execute('SELECT * FROM %s' % t).fetchall()


def exp_rows(db, t, k=5):
    out = {}
    for r in rows(db, t):
        key = tuple(r[:k])
        out.setdefault(key, []).append(tuple(canon(v) for v in r[k:]))
    return out


def observed(db):
    names = sorted(r[0] for r in db.execute("SELECT name FROM sqlite_master WHERE type='table'"))
    out = {}
    for t in names:
        if t in 'AB':
            out[t] = dyn_rows(db, t)
            if len(out[t]) != len(rows(db, t)):
                out[t] = 'duplicate keys'
        else:
            out[t] = exp_rows(db, t)
    return out


def expected(state):
    out = {}
    for t, content in state.items():
        if t in 'AB':
            out[t] = {k: (canon(v[0]), canon(v[1])) for k, v in content.items()}
        else:
            out[t] = {k: [tuple(canon(v[c]) for c in ('RMSE', 'NLL', 'Mean', 'Variance'))] for k, v in content.items()}
    return out


def legal(seq):
    have = set()
    for op in seq:
        if op[0] in ('cd', 'ce'):
            have.add(op[1])
        elif op[0] in ('id', 'ie') and op[1] not in have:
            return False
    return True


def record(key, val):
    d = dict(zip(('Transform', 'Seed', 'Iter', 'Power', 'Damping'), key))
    d.update(val)
    return d


def step(D, path, conn, state, op):
    """Apply op to the real store and to the model."""
    if op[0] == 'cd':
        D.create_dynamics_table(conn, op[1]) if op[1] == 'A' else D.create_dynamics_table(db=conn.cursor(), name=op[1])
        state.setdefault(op[1], {})
    elif op[0] == 'ce':
        D.create_experiment_table(conn.cursor(), op[1])
        state.setdefault(op[1], {})
    elif op[0] == 'id':
        data = D1 if op[3] == 1 else D2
        D.insert_dynamics_data(conn.cursor(), op[1], data, op[2])
        for t, d in enumerate(data):
            state[op[1]].setdefault((op[2], float(t)), d)
    elif op[0] == 'ie':
        key, val = (K1, K2)[op[2] - 1], (V1, V2)[op[3] - 1]
        D.insert_experiment_data(conn.cursor(), op[1], record(key, val))
        state[op[1]][key[:2] + (float(key[2]),) + key[3:]] = val
    elif op[0] == 'commit':
        conn.commit()
    else:
        conn.commit()
        conn.close()
        conn = open_fast(D, path)
    return conn


def open_fast(D, path):
    conn = D.open_database(path)
    conn.execute('PRAGMA synchronous=OFF')
    conn.execute('PRAGMA journal_mode=MEMORY').fetchall()
    return conn


def do_seq(case, rec, d):
    from Utils import Database as D
    if 'seq' in case:
        seqs = [[OPS.index(tuple(o)) for o in case['seq']]]
    else:
        head = case.get('head', [])
        seqs = [head + list(t) for t in itertools.product(range(len(OPS)), repeat=case['depth'] - len(head))]
    for n, ix in enumerate(seqs):
        seq = [OPS[i] for i in ix]
        if case.get('prepared'):
            seq = PREPARE + seq
        elif not legal(seq):
            continue
        path = os.path.join(d, '%d.db' % n)
        conn, state = open_fast(D, path), {}
        for op in seq:
            conn = step(D, path, conn, state, op)
            rec.step()
        want = expected(state)
        sub = {'kind': 'seq', 'seq': seq}
        check(rec, observed(conn), want, 'after %s' % (seq,), sub)
        if seq[-1][0] == 'commit':
            other = open_fast(D, path)
            check(rec, observed(other), want, 'seen by another connection after %s' % (seq,), sub)
            other.close()
        rec.state(sorted(want.items()))
        rec.outcome(sorted(want.items()), seq[-1])
        rec.trace()
        rec.ran()
        conn.close()
        os.unlink(path)


def check(rec, got, want, what, sub):
    for t in want:
        rec.require(t in got, '%s: table %s is missing' % (what, t), case=sub)
        if got[t] != want[t]:
            rec.fail('%s: table %s contains %s instead of %s' % (what, t, str(got[t])[:500], str(want[t])[:500]), case=sub)
    rec.require(set(got) == set(want), '%s: tables %s instead of %s' % (what, sorted(got), sorted(want)), case=sub)


# ------------------------------------------------------------------------------------------------------ round trips
def build(dtype, shape, layout):
    n = int(np.prod(shape, dtype=int))
    base = (np.arange(n) * 7 % 11 - 3)
    if dtype in ('S3', 'U2'):
        a = np.array([str(v)[:2] for v in base], dtype=dtype).reshape(shape)
    elif dtype == 'b1':
        a = (base % 2 == 0).reshape(shape)
    else:
        a = base.astype(dtype).reshape(shape)
        if dtype[-2] in 'fc' and n > 3 or dtype == 'c16' and n > 3:
            a = a * .37
            a = a.astype(dtype)
            f = a.reshape(-1)
            f[0], f[1], f[2] = np.nan, np.inf, -0.0
            a = f.reshape(shape)
    if layout == 'F':
        return np.array(a, order='F')
    if layout == 'strided' and a.ndim:
        big = np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
        big[::2] = a
        return big[::2]
    if layout == 'reversed' and a.ndim:
        return np.array(a[::-1])[::-1]
    if layout == 'transposed':
        return np.array(a.T).T
    if layout == 'readonly':
        a = np.array(a)
        a.setflags(write=False)
    return a


def do_arrays(case, rec, d):
    from Utils import Database as D
    conn = D.open_database(os.path.join(d, 'a.db'))
    D.create_dynamics_table(conn.cursor(), 'A')
    items, data = [], []
    for dt, sh, lay in itertools.product(case['dtypes'], case.get('shapes', SHAPES), case.get('layouts', LAYOUTS)):
        items.append((dt, list(sh), lay))
        x, y = build(dt, tuple(sh), lay), build('f8', (len(items) % 5, 2), 'C')
        data.append((x, y))
    before = [(x.tobytes(), y.tobytes()) for x, y in data]
    D.insert_dynamics_data(conn.cursor(), 'A', data, 5)
    conn.commit()
    conn.close()
    conn = D.open_database(os.path.join(d, 'a.db'))
    got = conn.execute('SELECT Seed, t, X, Y FROM A ORDER BY t').fetchall()
    rec.require(len(got) == len(data), '%d rows for %d steps' % (len(got), len(data)))
    for k, (it, (x, y), row) in enumerate(zip(items, data, got)):
        sub = {'kind': 'arrays', 'dtypes': [it[0]], 'shapes': [it[1]], 'layouts': [it[2]]}
        rec.require(row[0] == 5 and row[1] == k, 'row %d stored under (%r, %r)' % (k, row[0], row[1]), case=sub)
        for g, w, b, nm in ((row[2], x, before[k][0], 'state'), (row[3], y, before[k][1], 'measurement')):
            rec.require(isinstance(g, np.ndarray), '%s read back as %s' % (nm, type(g).__name__), case=sub)
            rec.require(g.dtype == w.dtype and g.shape == w.shape,
                        '%s array of dtype %s shape %s read back as %s %s' % (nm, w.dtype, w.shape, g.dtype, g.shape), case=sub)
            rec.require(g.tobytes() == w.tobytes(), '%s array %r read back as %r' % (nm, w, g), case=sub)
            rec.require(w.tobytes() == b, 'storing changed the array', case=sub)
        rec.ran()
        rec.trace()
        rec.outcome(it)
    # what a reader does to its copy changes neither the store nor what the next reader gets
    for row in got:
        for g in row[2:]:
            if g.size and g.flags.writeable:
                np.copyto(g, np.ones((), dtype=g.dtype) if g.dtype.kind not in 'SU' else np.array('z', dtype=g.dtype))
    for other in (conn, D.open_database(os.path.join(d, 'a.db'))):
        for it, (x, y), row in zip(items, data, other.execute('SELECT Seed, t, X, Y FROM A ORDER BY t').fetchall()):
            for g, w in ((row[2], x), (row[3], y)):
                rec.require(isinstance(g, np.ndarray) and g.dtype == w.dtype and g.shape == w.shape and g.tobytes() == w.tobytes(),
                            'array %r is read as %r after an earlier reader changed its own copy' % (w, g),
                            case={'kind': 'arrays', 'dtypes': [it[0]], 'shapes': [it[1]], 'layouts': [it[2]]})
            rec.trace()
        other.close()


def do_lists(case, rec, d):
    from Utils import Database as D
    from StateModel import Gaussian
    lists = [[], [1], [2 ** 60 + 1, .5], [1, 2.5, True], [None, 1, 2], ['1', 1], [[2 ** 60 + 1], [.5]], [1.5, None, 'x'], [[1, 2], [3, []]], [np.arange(3.)], [np.eye(2), np.zeros((0, 2))],
             [Gaussian(np.array([1., 2.]), np.eye(2))], [{'a': 1}], [float('nan')], [True, False], [(1, 2)], list(range(2000)),
             [np.float64(.1), np.int64(3)], [b'\x00\xff']]
    conn = D.open_database(os.path.join(d, 'l.db'))
    D.create_experiment_table(conn.cursor(), 'E')
    for i, (a, b) in enumerate(itertools.product(lists, repeat=2)):
        D.insert_experiment_data(conn.cursor(), 'E', record(('UT', i, 1, 1., 1.), dict(RMSE=i / 7, NLL=-i / 3, Mean=a, Variance=b)))
    conn.commit()
    conn.close()
    conn = D.open_database(os.path.join(d, 'l.db'))
    got = conn.execute('SELECT Seed, RMSE, NLL, Mean, Variance FROM E ORDER BY Seed').fetchall()
    rec.require(len(got) == len(lists) ** 2, '%d rows' % len(got))

    def eq(a, b):
        if isinstance(a, np.ndarray):
            return isinstance(b, np.ndarray) and canon(a) == canon(b)
        if isinstance(a, Gaussian):
            return isinstance(b, Gaussian) and np.array_equal(a.mean, b.mean) and np.array_equal(a.cov, b.cov)
        if isinstance(a, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
        return type(a) is type(b) and (a == b or a != a and b != b)
    for i, (a, b) in enumerate(itertools.product(lists, repeat=2)):
        r = got[i]
        rec.require(r[0] == i and r[1] == i / 7 and r[2] == -i / 3, 'record %d read back as %r' % (i, r[:3]))
        rec.require(eq(a, r[3]), 'list %r read back as %r (Mean)' % (a, r[3]))
        rec.require(eq(b, r[4]), 'list %r read back as %r (Variance)' % (b, r[4]))
        rec.ran()
        rec.trace()
        rec.outcome(i)
    for r in got:
        for v in r[3:]:
            v.append('changed by a reader')
    for other in (conn, D.open_database(os.path.join(d, 'l.db'))):
        for (a, b), r in zip(itertools.product(lists, repeat=2), other.execute('SELECT Mean, Variance FROM E ORDER BY Seed').fetchall()):
            rec.require(eq(a, r[0]) and eq(b, r[1]), 'lists %r, %r are read as %r after an earlier reader changed its own copy' % (a, b, r))
        other.close()


def do_default(case, rec, d):
    """open_database() without a name opens temp.db in the working directory"""
    from Utils import Database as D
    home = os.getcwd()
    os.chdir(d)
    try:
        conn = D.open_database()
        D.create_dynamics_table(conn)
        D.insert_dynamics_data(conn, 'UNGM', D1, 3)
        D.create_experiment_table(conn)
        D.insert_experiment_data(conn, 'UNGM_EXP', record(K1, V2))
        conn.commit()
        conn.close()
        rec.require(os.path.exists('temp.db'), 'no temp.db in the working directory')
        conn = D.open_database()
        rec.require(len(dyn_rows(conn, 'UNGM')) == 2 and len(exp_rows(conn, 'UNGM_EXP')) == 1, 'records lost on reopening temp.db')
        conn.close()
    finally:
        os.chdir(home)
    rec.ran()
    rec.outcome('default')


def do_ieks(case, rec, d):
    from Experiments import IEKS_Sweep_UNGM as E
    from Utils import Database as D
    for seq in itertools.product(((1, 5), (1, 6), (2, 5)), repeat=3):
        conn = sqlite3.connect(':memory:', detect_types=sqlite3.PARSE_DECLTYPES)
        model = {}
        for i, k in enumerate(seq):
            E.create_experiment_table(conn.cursor(), table_name='I')
            conn.execute(E.experiment_data_string.format('I'), k + (i / 3., i / 7.))
            model.setdefault(k, (i / 3., i / 7.))
        got = {tuple(r[:2]): tuple(r[2:]) for r in rows(conn, 'I')}
        rec.require(got == model and len(rows(conn, 'I')) == len(model), 'IEKS results after %s: %s instead of %s' % (seq, got, model))
        conn.close()
        rec.ran()
        rec.trace()
        rec.outcome(seq)


TEXTS = ('UT', 'ut', 'Ut', 'UT ', ' UT', 'U T', 'UT\t', 'UT\n', 'U_', 'U%', '\u00dcT', '\u00fct', "U'T", 'U"T', 'U;T', '', '1', '1.0', '01', 'None',
         'NULL', 'UnscentedTransform', 'UnscentedTransform2', 'x' * 300, 'x' * 301)


def do_texts(case, rec, d):
    do_keys(case, rec, d)


def do_keys(case, rec, d):
    """Every ordered pair of keys, two values per key column."""
    from Utils import Database as D
    if case['table'] == 'plain':
        create, insert = D.create_experiment_table, D.insert_experiment_data
        cols = (('UT', 'TT'), (1, 11), (1, 10), (.3, .1 + .2), (1., .8))
        names = ('Transform', 'Seed', 'Iter', 'Power', 'Damping')
        vals = [V1, V2]
    else:
        from Experiments import EP_Sweep_BearingsOnly as B
        create, insert = B.create_experiment_table, B.insert_experiment_data
        cols = (('UT', 'TT'), ('position', 'angle'), (1, 11), (1, 10), (.3, .1 + .2), (1., .8))
        names = ('Transform', 'Quantity', 'Seed', 'Iter', 'Power', 'Damping')
        vals = [dict(RMSE=.5, NLL=1.5), dict(RMSE=-3., NLL=7.5)]
    keys = list(itertools.product(*cols))
    if case['kind'] == 'texts':
        keys = [(t,) + keys[0][1:] for t in TEXTS]
        if case['table'] == 'quantity':
            keys += [(keys[0][0], t) + keys[0][2:] for t in TEXTS]
    for a in keys:
        if case['kind'] == 'keys' and (a[0] == cols[0][0]) != (case['first'] == 0):
            continue
        for b in keys:
            conn = sqlite3.connect(':memory:', detect_types=sqlite3.PARSE_DECLTYPES)
            create(conn.cursor(), 'E')
            model = {}
            for k, v in ((a, vals[0]), (b, vals[1])):
                row = dict(zip(names, k))
                row.update(v)
                insert(conn.cursor(), 'E', row)
                model[k] = [tuple(canon(x) for x in v.values())]
                create(conn.cursor(), 'E')
            got = exp_rows(conn, 'E', len(names))
            rec.require(got == model, 'after storing %s then %s: %s instead of %s' % (a, b, str(got)[:400], str(model)[:400]))
            conn.close()
            rec.ran()
            rec.trace()
            rec.step(2)
            rec.outcome(a, b)
