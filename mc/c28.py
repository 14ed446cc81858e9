"""C28: the report script over all single-row changes of the result stores it reads."""
import contextlib
import io
import itertools
import math
import os
import re
import runpy
import sqlite3
import tempfile

import numpy as np

from . import core

ID = 'C28'
TITLE = 'the report prints mean and spread of exactly the runs each line names'
LEVEL = 'exploration'
RULE = ('the report script is executed on every store of the family: the full stores (every row has its own value), every store in '
        'which the runs of a single seed, or of a subset of the seeds, are missing, and every store in which one group of rows (one setting of transform, '
        'quantity, dimension, power, damping, iteration) is changed or rows of up to three further seeds are present, each beside '
        'rows of settings with similar names; all printed numbers are compared with averages taken over the rows that the line '
        'names; the outlier filter is run on every sequence over a small alphabet; '
        'non-trivial: stores that print different numbers')
ASSUMPTIONS = ['the settings in the head of each section are read from the printed heading where it names them and are otherwise the '
               'ones of the pinned script']

SEEDS = [101, 201, 301, 401, 501, 601, 701, 801, 901, 1001]
EXTRA = [1101, 5, 1201]                                  # more seeds than the pinned experiments have
POWERS = [1.0, .8, .6, .4, .2]
DIMS = [5, 10, 20, 40, 100, 200]


# ------------------------------------------------------------------------------------------------------------ the stores
def settings():
    """{store: [setting tuples]} - the ones that are reported and decoys next to them"""
    out = {}
    out['ungm'] = [(t, i, p, g) for t in ('MCT', 'UT') for i in (1, 49, 50) for p in POWERS + [.1] for g in (1.0, .2)]
    out['bott'] = [(t, q, i, p, g) for t in ('MCT', 'UT') for q in ('position', 'velocity', 'angle') for i in (1, 50)
                   for p in POWERS for g in (1.0, .8)]
    out['l96'] = [(t, d, i, p, 1.0) for t in ('MCT', 'UT') for d in DIMS for i in (0, 1, 9) for p in (1.0, .8)]
    out['iungm'] = [(i,) for i in (10, 50)]
    out['ibott'] = [(q, i) for q in ('position', 'velocity', 'angle') for i in (10, 50)]
    out['il96'] = [(d, i) for d in (5, 10, 20) for i in (10, 50)]
    return out


def decoys():
    """settings whose names resemble the reported ones: always in the stores, never reported"""
    near = [(t, 'angle') for t in ('QMCT', 'MCT2', 'mct', 'UT2', 'XUT', '')] + [('MCT', q) for q in ('angles', 'Angle', 'triangle')]
    return {'ungm': [(t, i, p, g) for t, q in near if t != 'MCT' for i in (1, 50) for p in POWERS for g in (1.0, .2)],
            'bott': [(t, q, i, p, 1.0) for t, q in near for i in (1, 50) for p in POWERS],
            'l96': [(t, d, i, 1.0, 1.0) for t, q in near if t != 'MCT' for d in DIMS for i in (0, 9)],
            'iungm': [(i,) for i in (5, 500)], 'ibott': [(q, 50) for q in ('angles', 'Angle')] + [('angle', 500)],
            'il96': [(200, 10), (20, 100)]}


COLS = {'ungm': ('Transform', 'Iter', 'Power', 'Damping'), 'bott': ('Transform', 'Quantity', 'Iter', 'Power', 'Damping'),
        'l96': ('Transform', 'dim', 'Iter', 'Power', 'Damping'), 'iungm': ('Iter',), 'ibott': ('Quantity', 'Iter'),
        'il96': ('dim', 'Iter')}
FILES = {'ungm': ('run/ungm_final_2.db', 'UNGM_EXP'), 'bott': ('log/bott_final_2.db', 'BOTT_EXP'),
         'l96': ('log/L96_dim_experiment_3.db', 'L96_EXP'), 'iungm': ('log/IEKS_ungm.db', 'UNGM_EXP'),
         'ibott': ('log/IEKS_bott.db', 'BOTT_EXP'), 'il96': ('log/IEKS_L96.db', 'L96_EXP')}
TYPES = {'Transform': 'TEXT', 'Quantity': 'TEXT', 'dim': 'INT', 'Iter': 'REAL', 'Power': 'REAL', 'Damping': 'REAL'}
REPORTED = {'ungm': [('MCT', 1, 1.0, 1.0)] + [('MCT', 50, p, .2) for p in POWERS],
            'bott': [('MCT', 'angle', 1, 1.0, 1.0)] + [('MCT', 'angle', 50, p, 1.0) for p in POWERS],
            'l96': [('UT', d, i, 1.0, 1.0) for d in DIMS for i in (0, 9)],
            'iungm': [(50,)], 'ibott': [('angle', 50)], 'il96': [(20, 10)]}


def value(store, setting, seed, score):
    """A value of its own for every row: pseudo-random digits from the position of the row, spread over seeds."""
    h = 17
    for c in repr((store, setting, score)):
        h = (h * 31 + ord(c)) % 9973
    s = (SEEDS + EXTRA).index(seed)
    return (1 + h / 3000.) * (1 + ((s * s + 3 * s + h) % 11) / 4.) * (1 if score == 'RMSE' else 20)


def cases(tier):
    q = tier == 'quick'
    out = [{'kind': 'report', 'missing': {}, 'shift': None}]
    for store in FILES:
        for st in settings()[store]:
            for score in ('RMSE', 'NLL'):
                if q and store in ('ungm', 'bott', 'l96') and st not in REPORTED[store] and score == 'NLL':
                    continue
                out.append({'kind': 'report', 'missing': {}, 'shift': [store, list(st), score]})
    for store in ('ungm', 'bott', 'l96'):
        for j in range(len(SEEDS)):
            out.append({'kind': 'report', 'missing': {store: [j]}, 'shift': None})
            out.append({'kind': 'report', 'missing': {store: [k for k in range(len(SEEDS)) if k != j]}, 'shift': None})
        if not q:
            for a, b in itertools.combinations(range(len(SEEDS)), 2):
                out.append({'kind': 'report', 'missing': {store: [a, b]}, 'shift': None})
    for n in range(1, len(EXTRA) + 1):
        out.append({'kind': 'report', 'missing': {}, 'shift': None, 'extra': n})
        out.append({'kind': 'report', 'missing': {'ungm': [0], 'bott': [3], 'l96': [9]}, 'shift': None, 'extra': n})
    for n in range(1, 6 if q else 8):
        out.append({'kind': 'outliers', 'n': n})
    return group(out)


def group(cs):
    reports = [c for c in cs if c['kind'] == 'report']
    return [{'kind': 'reports', 'group': reports[i:i + 8]} for i in range(0, len(reports), 8)] + [
        c for c in cs if c['kind'] != 'report']


_ROWS = {}


def rows(store):
    if store not in _ROWS:
        _ROWS[store] = [(st, seed, value(store, st, seed, 'RMSE'), value(store, st, seed, 'NLL'))
                        for st in settings()[store] + decoys()[store] for seed in SEEDS + EXTRA]
    return _ROWS[store]


def content(case):
    """{store: {setting: [(seed, rmse, nll), ...]}}"""
    out = {}
    for store in FILES:
        missing = set(SEEDS[j] for j in case['missing'].get(store, ())) | set(EXTRA[0 if store[0] == 'i' else case.get('extra', 0):])
        d = out[store] = {}
        for st, seed, a, b in rows(store):
            if seed in missing:
                continue
            if case['shift'] and case['shift'][0] == store and tuple(case['shift'][1]) == st:
                if case['shift'][2] == 'RMSE':
                    a = a * 3 + (SEEDS + EXTRA).index(seed)
                else:
                    b = -b * 2 - (SEEDS + EXTRA).index(seed)
            d.setdefault(st, []).append((seed, a, b))
    return out


def write(stores, d):
    for store, (name, table) in FILES.items():
        cols = COLS[store]
        con = sqlite3.connect(os.path.join(d, name))
        con.execute('PRAGMA synchronous=OFF')
        con.execute('CREATE TABLE %s (Seed INT, %s, RMSE REAL, NLL REAL, UNIQUE (Seed, %s))' % (
            table, ', '.join('%s %s' % (c, TYPES[c]) for c in cols), ', '.join(cols)))
        con.executemany('INSERT INTO %s VALUES (%s)' % (table, ', '.join('?' * (len(cols) + 3))),
                        [(s,) + st + (a, b) for st, rs in stores[store].items() for s, a, b in rs])
        con.commit()
        con.close()


def stats(rs, k):
    v = [r[k] for r in rs]
    m = math.fsum(v) / len(v)
    return m, math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))


NUM = re.compile(r'[-+]?\d+\.?\d*(?:e[-+]?\d+)?')


def numbers(text):
    return [float(x) for x in NUM.findall(text)]


def expected(stores):
    """[(label, numbers)] in the order of the report"""
    out = []
    for store in ('ungm', 'bott', 'l96'):
        for st in REPORTED[store]:
            rs = stores[store][st]
            first = st[COLS[store].index('Iter')] in (0, 1)
            out.append((store, st, 'Kalman Smoother' if first else 'Power EP', None if first else st[COLS[store].index('Power')],
                        stats(rs, 1) + stats(rs, 2)))
    return out


def close(got, want, digits):
    # printed with two decimals (fixed or in scientific notation)
    return abs(got - want) <= (.0051 if digits == 'f' else .0051 * 10 ** math.floor(math.log10(max(abs(want), 1e-300)) + 1e-9)) \
        + 1e-9 * abs(want)


def run_report(case, rec):
    stores = content(case)
    home = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='c28-', dir='.') as d:
        d = os.path.abspath(d)
        os.mkdir(d + '/run')
        os.mkdir(d + '/log')
        write(stores, d)
        before = {n: open(os.path.join(d, n), 'rb').read() for n, _ in FILES.values()}
        os.chdir(d + '/run')
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                mod = runpy.run_path(os.path.join(core.REPO, 'Experiments', 'DisplayResults.py'), run_name='__main__')
        finally:
            os.chdir(home)
        for n, b in before.items():
            rec.require(open(os.path.join(d, n), 'rb').read() == b, 'the report changed %s' % n)
        del mod
    text = out.getvalue()
    lines = [l for l in text.splitlines() if l.startswith(('Kalman Smoother', 'Power EP'))]
    want = expected(stores)
    rec.require(len(lines) == len(want), 'the report has %d result lines instead of %d' % (len(lines), len(want)))
    for line, (store, st, label, power, vals) in zip(lines, want):
        rec.require(line.startswith(label), '%s %s: the line is %r' % (store, st, line))
        got = numbers(line[len(label):])
        if power is not None:
            rec.require(got and abs(got[0] - power) < 1e-9, '%s %s: the line is %r' % (store, st, line))
            got = got[1:]
        style = 'f' if store == 'l96' else 'e'
        rec.require(len(got) == 4 and all(close(a, b, style) for a, b in zip(got, vals)),
                    '%s %s: printed %r, the stored runs have RMSE %g +/- %g, NLL %g +/- %g' % ((store, st, line) + vals))
        rec.step()
    dims = [int(numbers(l)[0]) for l in text.splitlines() if l.startswith('Dimension')]
    rec.require(dims == DIMS, 'the report covers the dimensions %s' % dims)
    tail = [l for l in text.splitlines() if l.startswith(('RMSE:', 'NLL:'))]
    want = [(s, k) for s in ('iungm', 'ibott', 'il96') for k in (1, 2)]
    rec.require(len(tail) == len(want), 'the report has %d lines for the iterated smoother' % len(tail))
    for line, (s, k) in zip(tail, want):
        m, sd = stats(stores[s][REPORTED[s][0]], k)
        got = numbers(line.split(':', 1)[1].replace('+/-', ' '))
        rec.require(line.startswith('RMSE' if k == 1 else 'NLL') and len(got) == 2 and abs(got[0] - m) <= 1e-9 * abs(m)
                    and abs(got[1] - sd) <= 1e-9 * (abs(m) + sd), '%s: printed %r, the stored runs have %r +/- %r' % (s, line, m, sd))
        rec.step()
    if rec.state(text):
        rec.outcome(text)
    rec.ran()


def run(case, rec):
    if case['kind'] == 'outliers':
        return outliers(case, rec)
    for c in case['group']:
        run_report(c, rec)
    rec.trace()


# ---------------------------------------------------------------------------------------------------------------- outliers
def quantile(v, q):
    v = sorted(v)
    pos = q * (len(v) - 1)
    lo = int(math.floor(pos))
    hi = min(lo + 1, len(v) - 1)
    return v[lo] + (pos - lo) * (v[hi] - v[lo])


def outliers(case, rec):
    stores = content({'missing': {}, 'shift': None})
    home = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='c28-', dir='.') as d:
        d = os.path.abspath(d)
        os.mkdir(d + '/run')
        os.mkdir(d + '/log')
        write(stores, d)
        os.chdir(d + '/run')
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                fn = runpy.run_path(os.path.join(core.REPO, 'Experiments', 'DisplayResults.py'), run_name='__main__').get('remove_outliers')
        finally:
            os.chdir(home)
    if fn is None:
        return
    for v in itertools.product((0., 1., 2., 10.), repeat=case['n']):
        x = np.array(v)
        lo, hi = quantile(v, .25), quantile(v, .75)
        up, down = hi + 1.5 * (hi - lo), lo - 1.5 * (hi - lo)
        want = [k for k, a in enumerate(v) if a > up + 1e-12 or a < down - 1e-12]
        keep = [k for k in range(len(v)) if k not in want]
        ix, rest = fn(x)
        rec.require(sorted(int(k) for k in ix) == want and list(rest) == [v[k] for k in keep],
                    'outliers of %s: removed %s, left %s instead of removing %s' % (v, list(ix), list(rest), want))
        other = np.arange(len(v)) * 7.
        _, rest = fn(other, ix)
        rec.require(list(rest) == [7. * k for k in keep], 'removing the outliers %s of %s elsewhere left %s' % (want, v, list(rest)))
        if len(v) <= 4:                                  # every choice of positions that leaves something
            for gone in itertools.product((0, 1), repeat=len(v)):
                if all(gone):
                    continue
                ix, rest = fn(x, np.flatnonzero(gone))
                rec.require(list(rest) == [a for a, g in zip(v, gone) if not g],
                            'removing positions %s of %s left %s' % (np.flatnonzero(gone), v, list(rest)))
                rec.step()
        none, rest = fn(x, dont_remove=True)
        rec.require(none is None and np.array_equal(rest, v) and np.array_equal(x, v), 'dont_remove changed %s to %s' % (v, rest))
        rec.ran()
        rec.step()
        if rec.state('o', v):
            rec.outcome('o', tuple(want))
