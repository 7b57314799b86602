"""Writes MANIFEST.json from the properties and the check modules."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', 'checks', i.lower() + '.py')):
        m = importlib.import_module('mc.checks.' + i.lower())
        checks.append(dict(property=i, quick_cmd=f'bash run.sh {i} quick', thorough_cmd=f'bash run.sh {i} thorough',
            evidence_file=f'evidence/{i}.json',
            technique=getattr(m, 'TECHNIQUE', 'explicit-state exploration of the real code against a reference model'),
            level=getattr(m, 'LEVEL', 'model_checking'),
            level_note=('Explores, on the code in /repo itself: ' + m.BOUNDS['quick'] + '. Assumes: ' + '; '.join(m.ASSUMPTIONS))))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
     notes='No hooks are needed in /repo. All checks are run.sh <property> <tier>; see DESIGN.md.'),
     open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
