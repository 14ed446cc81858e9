"""Explorer shared by all checks: enumerates every case of a finite space, runs the real code on each, counts
what was covered, and turns the first (smallest-index) failing case into a replayable violation.

A check module defines
    ID, TITLE, LEVEL, RULE, ASSUMPTIONS
    cases(tier)      -> list of JSON-able dicts; the whole bounded space, simplest first
    run(case, rec)   -> executes one case on the code in /repo; rec.fail(...) / rec.close(...) report a violation
Any exception that escapes from the code under test in a legal call is a violation too.
"""
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
CASE_LIMIT = 240          # seconds; ordinary cases take far less than 20
PROCS = 8


class Violation(Exception):
    def __init__(self, msg, case=None, key=None):
        super().__init__(msg)
        self.msg, self.case, self.key = msg, case, key


class CaseTimeout(BaseException):
    pass


def fingerprint(*parts):
    """A stable 64-bit digest of nested numbers/arrays/strings, floats to 6 significant digits."""
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        _feed(h, p)
    return h.hexdigest()


def _feed(h, p):
    if isinstance(p, bool) or p is None or isinstance(p, (int, str)):
        h.update(repr(p).encode())
    elif isinstance(p, float):
        h.update(('%.5e' % (p + 0.0)).encode())
    elif isinstance(p, (list, tuple)):
        h.update(b'[')
        for q in p:
            _feed(h, q)
        h.update(b']')
    elif isinstance(p, dict):
        for k in sorted(p):
            _feed(h, k)
            _feed(h, p[k])
    elif hasattr(p, 'tolist'):
        _feed(h, p.tolist())
    else:
        h.update(repr(p).encode())


class Recorder:
    """What one case did."""

    def __init__(self, case):
        self.case = case
        self.evaluations = 0
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.caps = []
        self.notes = {}

    # -- counting
    def ran(self, n=1):
        self.evaluations += n

    def state(self, *key):
        k = fingerprint(*key)
        new = k not in self.states
        self.states.add(k)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *parts):
        self.outcomes.add(fingerprint(*parts))

    def cap(self, what):
        self.caps.append(what)

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    # -- judging
    def fail(self, msg, case=None, key=None):
        raise Violation(msg, case=case, key=key)

    def require(self, cond, msg, **kw):
        if not cond:
            self.fail(msg, **kw)

    def close(self, got, want, msg, rtol=1e-6, atol=1e-9, scale=None, **kw):
        """Entrywise |got-want| <= atol + rtol*scale; scale defaults to max|want|."""
        import numpy as np
        try:
            g = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            self.fail('%s: got %r, expected %s' % (msg, got, show(want)), **kw)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail('%s: shape %s instead of %s (got %s, expected %s)' % (msg, g.shape, w.shape, show(g), show(w)), **kw)
        if g.size == 0:
            return
        if scale is None:
            scale = float(np.max(np.abs(w)))
        bad = ~(np.abs(g - w) <= atol + rtol * scale)
        if np.any(bad):
            self.fail('%s: got %s, expected %s (max difference %s)' % (msg, show(g), show(w), np.max(np.abs(g - w))), **kw)

    def same(self, got, want, msg, **kw):
        """Bitwise equality of arrays."""
        import numpy as np
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or g.dtype != w.dtype or not np.array_equal(g, w):
            self.fail('%s: got %s, expected exactly %s' % (msg, show(g), show(w)), **kw)

    def gauss(self, state, mean, cov, msg, rtol=1e-6, atol=None, **kw):
        """The state has this mean and covariance, judged in units of its own standard deviations."""
        import numpy as np
        mean, cov = np.atleast_1d(mean), np.atleast_2d(cov)
        sd = np.sqrt(np.abs(np.diag(cov)))
        m, c = state.mean, state.cov
        small = [1e-9 * min(1., s) for s in (np.max(sd + np.abs(mean)), np.max(sd) ** 2)] if atol is None else [atol, atol]
        self.close(m, mean, msg + ' mean', rtol=rtol, atol=small[0], scale=sd + np.abs(mean), **kw)
        self.close(c, cov, msg + ' covariance', rtol=rtol, atol=small[1], scale=np.outer(sd, sd), **kw)


def show(a, limit=400):
    s = repr(a.tolist() if hasattr(a, 'tolist') else a)
    return s if len(s) <= limit else s[:limit] + '...'


# ---------------------------------------------------------------------------------------------------------
_MODULE = None


def _alarm(signum, frame):
    raise CaseTimeout()


def _execute(item):
    index, case = item
    rec = Recorder(case)
    out = {'index': index, 'violation': None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    t0 = time.time()
    try:
        _MODULE.run(case, rec)
    except Violation as v:
        out['violation'] = {'case': v.case if v.case is not None else case, 'message': v.msg, 'key': v.key}
    except CaseTimeout:
        out['violation'] = {'case': case, 'key': None,
                            'message': 'the code did not terminate within %d s on this case' % CASE_LIMIT}
    except Exception as e:        # a legal call raised
        out['violation'] = {'case': case, 'key': None,
                            'message': 'unexpected %s: %s' % (type(e).__name__, e),
                            'traceback': traceback.format_exc()}
    finally:
        signal.alarm(0)
    out.update(evaluations=rec.evaluations, states=rec.states, transitions=rec.transitions, traces=rec.traces,
               outcomes=rec.outcomes, caps=rec.caps, notes=rec.notes, secs=time.time() - t0)
    return out


class Result:
    def __init__(self):
        self.cases_total = 0
        self.cases_run = 0
        self.evaluations = 0
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.caps = []
        self.notes = {}
        self.samples = []
        self.violations = []
        self.slowest = (0, None)


def explore(module, cases, known, budget, serial=False, stop_at=1):
    """Run every case; stop at the first violation that is not a listed finding."""
    global _MODULE
    _MODULE = module
    res = Result()
    res.cases_total = len(cases)
    deadline = time.time() + budget
    items = list(enumerate(cases))
    findings = []
    n = len(items)
    want_samples = {0, n // 2, n - 1}

    def take(out):
        res.cases_run += 1
        res.evaluations += out['evaluations']
        res.states |= out['states']
        res.transitions += out['transitions']
        res.traces += out['traces']
        res.outcomes |= out['outcomes']
        res.caps += [c for c in out['caps'] if c not in res.caps]
        for k, v in out['notes'].items():
            res.notes[k] = res.notes.get(k, 0) + v
        if out['index'] in want_samples:
            res.samples.append(cases[out['index']])
        if out['secs'] > res.slowest[0]:
            res.slowest = (out['secs'], cases[out['index']])
        v = out['violation']
        if v is not None:
            f = match_known(module.ID, v, known)
            if f is not None:
                findings.append((f, v))
            else:
                res.violations.append(v)
        return len(res.violations) >= stop_at

    if serial or n <= 2:
        for it in items:
            if take(_execute(it)):
                break
            if time.time() > deadline:
                res.caps.append('time cap of %d s reached' % budget)
                break
    else:
        ctx = multiprocessing.get_context('fork')
        pool = ctx.Pool(min(PROCS, n))
        try:
            it = pool.imap(_execute, items, chunksize=1)
            for _ in range(n):
                try:
                    out = it.next(timeout=max(1.0, deadline - time.time()))
                except multiprocessing.TimeoutError:
                    res.caps.append('time cap of %d s reached' % budget)
                    break
                if take(out):
                    break
        finally:
            pool.terminate()
            pool.join()
    return res, findings


# ---------------------------------------------------------------------------------------------------------
def load_known():
    """known_findings.txt: 'known: property=<id> key=<key> <what fails>' or 'fixed: property=<id> <commit> ...'.
    Only 'known:' lines suppress anything, and only violations carrying exactly that key."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known:'):
                f = dict(w.split('=', 1) for w in line.split()[1:3])
                f['text'] = line.split(None, 3)[3].strip()
                out.append(f)
    return out


def match_known(pid, v, known):
    for f in known:
        if f['property'] == pid and v.get('key') is not None and f['key'] == v['key']:
            return f
    return None


def write_evidence(module, res, tier, wall, findings):
    cov = {}
    level = module.LEVEL
    cov['evaluations'] = res.evaluations
    cov['distinct_nontrivial'] = len(res.outcomes)
    cov['rule'] = module.RULE
    if level == 'model_checking' or res.states:
        cov['states'] = len(res.states)
        cov['transitions'] = res.transitions
        cov['traces_validated_against_impl'] = res.traces
    cov['samples'] = res.samples or [None]
    cov['cases_in_space'] = res.cases_total
    cov['cases_run'] = res.cases_run
    cov['exhaustive'] = (not res.caps) and res.cases_run == res.cases_total
    cov['caps'] = res.caps
    cov.update({'n_' + k: v for k, v in sorted(res.notes.items())})
    cov['slowest_case_s'] = round(res.slowest[0], 2)
    ev = {'property': module.ID, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': level,
          'coverage': cov, 'assumptions': list(module.ASSUMPTIONS), 'wall_s': round(wall, 2),
          'violations': len(res.violations)}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % module.ID)
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.replace(tmp, os.path.join(d, module.ID + '.json'))
    return ev


def save_replay(pid, v):
    d = os.path.join(VERIF, 'replays', pid)
    os.makedirs(d, exist_ok=True)
    name = fingerprint(json.dumps(v['case'], sort_keys=True, default=str))
    path = os.path.join(d, name + '.json')
    with open(path, 'w') as fh:
        json.dump({'property': pid, 'case': v['case'], 'message': v['message'], 'traceback': v.get('traceback'),
                   'replay_with': './run.sh %s --replay %s' % (pid, os.path.relpath(path, VERIF))},
                  fh, indent=1, default=str)
    return os.path.relpath(path, VERIF)
