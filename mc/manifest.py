"""Writes MANIFEST.json from properties.jsonl and the check modules:  python -m mc.manifest"""
import importlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'model_checking': 'stateless model checking: exhaustive enumeration of bounded operation sequences/state spaces on the real '
                      'code, every state compared with a reference model',
    'exploration': 'bounded-exhaustive exploration of executions of the real code against an executable reference model',
    'fault_enumeration': 'exhaustive fault and crash-point enumeration on the real code against a reference model',
}


def main():
    checks = []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)['id']
        m = importlib.import_module('mc.' + p.lower())
        checks.append({'property': p, 'quick_cmd': './run.sh %s --tier quick' % p,
                       'thorough_cmd': './run.sh %s --tier thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': TECH[m.LEVEL], 'level': m.LEVEL,
                       'level_note': 'Holds on every execution of the bounded space: ' + m.RULE + '. Assumes: ' + '; '.join(m.ASSUMPTIONS) + '.'})
    out = {'version': 1, 'setup_cmd': './run.sh setup', 'checks': checks, 'not_applicable': [],
           'notes': 'Pure Python: the checks import the working tree of /repo directly (nothing to build; byte-code caches are '
                    'redirected to a scratch directory). No hooks were added to /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(out, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
