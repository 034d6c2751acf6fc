#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'levels.json')))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    f = os.path.join(V, 'mc', 'props', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': NOTES.get('NA-' + p['id'], 'check not built yet')})
        continue
    level = re.search(r"^LEVEL = '(\w+)'", open(f).read(), re.M).group(1)
    n = NOTES.get(p['id'], {})
    checks.append({
        'property': p['id'],
        'quick_cmd': f'/opt/venv/bin/python mc/run.py {p["id"]} quick',
        'thorough_cmd': f'/opt/venv/bin/python mc/run.py {p["id"]} thorough',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': n.get('technique', 'bounded exhaustive enumeration of inputs and options against an independent reference model'),
        'level': level,
        'level_note': n.get('note', 'Exhaustive within the stated lattice; outside of it by the smoothness of the formulas only. Trusts numpy and the transcribed reference.')})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python mc/setup.py',
     'checks': checks, 'not_applicable': na,
     'notes': 'Explicit enumeration of bounded input/operation/fault spaces on the real code, compared case by case with reference models in mc/ref and mc/props.  No hooks are needed in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
