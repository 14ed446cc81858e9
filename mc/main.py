import argparse
import importlib
import json
import os
import sys
import tempfile
import time


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation (development)')
    ap.add_argument('--budget', type=float, default=None)
    args = ap.parse_args()

    from . import core
    sys.dont_write_bytecode = True
    with tempfile.TemporaryDirectory(prefix='mc-' + args.property + '-') as scratch:
        run_dir = os.path.join(scratch, 'run')
        for d in ('run', 'log', 'pyc'):
            os.mkdir(os.path.join(scratch, d))
        sys.pycache_prefix = os.path.join(scratch, 'pyc')      # never trust compiled files of an older tree
        sys.path[0] = core.REPO                                 # the code under test
        sys.path.append(core.VERIF)
        home = os.getcwd()
        os.chdir(run_dir)                                       # kalman_filter.log, ../log/*.npy land in scratch
        try:
            code = go(core, args, home)
            sys.stdout.flush()
        finally:
            os.chdir('/')
    sys.exit(code)


def go(core, args, home):
    t0 = time.time()
    module = importlib.import_module('mc.' + args.property.lower())
    if args.replay:
        path = args.replay if os.path.isabs(args.replay) else os.path.join(home, args.replay)
        case = json.load(open(path))['case']
        core._MODULE = module
        out = core._execute((0, case))
        if out['violation'] is None:
            print('replay: property held on this case')
            return 0
        print(out['violation']['message'])
        print(out['violation'].get('traceback') or '')
        print('VIOLATION property=%s replay=%s' % (module.ID, args.replay))
        return 1

    cases = list(module.cases(args.tier))
    if args.tier == 'thorough':
        core.CASE_LIMIT = 3000                                   # cases are bigger, hangs are told apart later
    budget = args.budget or (600 if args.tier == 'quick' else 3 * 3600)
    res, findings = core.explore(module, cases, core.load_known(), budget, serial=args.serial,
                                 stop_at=10**9 if args.all else 1)
    wall = time.time() - t0
    core.write_evidence(module, res, args.tier, wall, findings)
    seen = set()
    for f, v in findings:
        if f['key'] not in seen:
            seen.add(f['key'])
            print('KNOWN-FINDING: property=%s %s' % (module.ID, f['text']))
    print('%s [%s] %s: %d/%d cases, %d evaluations, %d distinct outcomes, %d states, %d transitions, %d traces, %.1f s%s%s'
          % (module.ID, args.tier, module.TITLE, res.cases_run, res.cases_total, res.evaluations, len(res.outcomes),
             len(res.states), res.transitions, res.traces, wall,
             '; caps: ' + '; '.join(res.caps) if res.caps else '', '; ' + json.dumps(res.notes) if res.notes else ''))
    if res.violations:
        for v in res.violations[:20]:
            path = core.save_replay(module.ID, v)
            print('  case: %s' % core.show(v['case'], 600))
            print('  ' + v['message'][:1500])
            if v.get('traceback'):
                print('  ' + v['traceback'].strip().replace('\n', '\n  ')[-1800:])
            print('VIOLATION property=%s replay=%s' % (module.ID, path))
        return 1
    return 0


if __name__ == '__main__':
    main()
