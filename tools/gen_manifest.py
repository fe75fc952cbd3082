"""Writes MANIFEST.json from the check modules."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
TECH = json.load(open(os.path.join(ROOT, 'tools', 'technique.json')))
NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, 'sa', 'checks', i.lower() + '.py')):
        t = TECH.get(i, TECH['default'])
        checks.append({'property': i, 'quick_cmd': f'python3 -m sa.run {i} --tier quick', 'thorough_cmd': f'python3 -m sa.run {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': t['technique'], 'level': 'other', 'level_note': t['note']})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m sa.selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks read the source text of /repo on every run and never import or execute it; no hooks are needed.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
