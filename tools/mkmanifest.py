"""writes /verif/MANIFEST.json from the property modules present"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
mods = {f[:3].upper() for f in os.listdir(os.path.join(V, 'props'))
        if f[:1] == 'p' and f.endswith('.py')}
checks, na = [], []
for p in props:
    i = p['id']
    if i not in mods:
        na.append({'property': i, 'reason': 'check is not built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'bin/check %s' % i,
        'thorough_cmd': 'bin/check %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'property-based testing (Hypothesis): ' + NOTES[i][0],
        'level': 'exploration',
        'level_note': NOTES[i][1] + ' ' + NOTES['_']})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
               'not_applicable': na}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'open')
