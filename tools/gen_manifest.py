"""Write MANIFEST.json from the checks present."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {}
PENDING = 'no check built yet'


def main():
    props = [json.loads(l)['id'] for l in open(
        os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        f = os.path.join(HERE, 'checks', p.lower() + '.py')
        if p in NA:
            na.append(dict(property=p, reason=NA[p]))
            continue
        if not os.path.exists(f):
            na.append(dict(property=p, reason=PENDING))
            continue
        m = importlib.import_module('checks.' + p.lower())
        note = getattr(m, 'NOTE', '')
        checks.append(dict(
            property=p,
            quick_cmd='/opt/venv/bin/python run_check.py %s quick' % p,
            thorough_cmd='/opt/venv/bin/python run_check.py %s thorough' % p,
            evidence_file='evidence/%s.json' % p,
            technique='symbolic execution of the Python source, every '
                      'branch and assertion decided by z3',
            level='model_checking',
            level_note=('Every value of the inputs within the stated bounds '
                        'is covered by solver verdicts over the current '
                        'source; counterexamples are replayed on the real '
                        'code. Bounds: %s %s Trusted: the models of numpy/'
                        'scipy/scikit-learn in symex (validated by sampled '
                        'replays each run), z3.' % (m.BOUNDS, note)).strip()))
    d = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


main()
