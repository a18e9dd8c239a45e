"""Writes /verif/MANIFEST.json: a check for every module in harness/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
from notes import TECH, NOTE, NA
checks, na = [], []
for p in props:
    if p in NA or not os.path.exists(os.path.join(V, 'harness', 'checks', p.lower() + '.py')):
        na.append(dict(property=p, reason=NA.get(p, 'the specification and conformance check for it are not built yet')))
        continue
    cmd = '/opt/venv/bin/python harness/run.py ' + p
    checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd='env VERIF_TIER=thorough ' + cmd,
                       technique=TECH.get(p, TECH['*']), level='model_checking', level_note=NOTE.get(p, NOTE['*'])))
m = dict(version=1, setup_cmd='bash harness/setup.sh', checks=checks, not_applicable=na,
         notes='Specifications in spec/*.tla (TLA+, TLC); harness/run.py checks the model, generates behaviours and replays them into /repo. No hooks: only the public interface is used.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
