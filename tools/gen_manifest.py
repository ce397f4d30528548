"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'bfs': 'explicit-state breadth-first model checking of operation '
           'histories on the real code against a reference model',
    'enum': 'bounded exhaustive model checking of the real code against a '
            'reference model',
}
BFS = {'P01', 'P06', 'P11', 'P14', 'P19', 'P23'}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if glob.glob(os.path.join(V, 'checks', pid.lower() + '_*.py')):
        checks.append(dict(
            property=pid,
            quick_cmd=f'bash run.sh {pid} quick',
            thorough_cmd=f'bash run.sh {pid} thorough',
            evidence_file=f'evidence/{pid}.json',
            technique=TECH['bfs' if pid in BFS else 'enum'],
            level='model_checking',
            level_note='Every case within the bounds listed in DESIGN.md is '
            'executed on the code in /repo and compared with a small '
            'independent reference model; nothing is sampled. Says nothing '
            'about inputs outside the alphabet or beyond the bounds; trusts '
            'numpy, pandas, scipy and the reference model.'))
    else:
        na.append(dict(property=pid, reason='No check yet (work in progress); '
                       'bounded exhaustive exploration applies.'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks,
               not_applicable=na,
               notes='No hooks in /repo: every seam is reached through the '
               'public API from the checks.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
