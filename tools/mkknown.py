"""Writes /verif/known_findings.json from tools/known.json (findings left in the tree) and
tools/fixed.txt ("Pnn subject of the fix commit in /repo")."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h\t%s'], capture_output=True, text=True, check=True).stdout
commits = {}
for l in log.splitlines():
    h, s = l.split('\t', 1)
    commits[s] = h
out = json.load(open(here + '/known.json')) if os.path.exists(here + '/known.json') else []
done = set()
for l in open(here + '/fixed.txt'):
    if l.strip():
        p, s = l.strip().split(' ', 1)
        h = commits[s]
        done.add(s)
        out.append(dict(id='fixed-' + h, property=p, status='fixed', key='', what=s[5:],
                        record='fixed: property=%s %s %s' % (p, h, s[5:])))
for s in commits:
    if s.startswith('fix:') and s not in done:
        print('not recorded:', s)
with open(here + '/../known_findings.json', 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
