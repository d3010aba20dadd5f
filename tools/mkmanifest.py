"""Writes /verif/MANIFEST.json: a check per property that has harness/check_<id>.py."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
notes = json.load(open(root + '/tools/levels.json'))
na = notes.pop('_na', {})
checks, no = [], []
for p in props:
    i = p['id']
    if os.path.exists(root + '/harness/check_%s.py' % i.lower()):
        n = notes[i]
        checks.append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i,
                           technique=n['technique'], level=n.get('level', 'model_checking'), level_note=n['note'],
                           evidence_file='evidence/%s.json' % i))
    else:
        no.append(dict(property=i, reason=na.get(i, 'specification and conformance harness not built yet')))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=no)
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
