#!/usr/bin/env python3
"""Fills the tables of DESIGN.md: runs (config.py, costs.json, evidence), fixes, seeded bugs (seeded_results.json)."""
import glob, json, os, re, sys
D = os.path.dirname(os.path.abspath(__file__))
V = D + '/..'
sys.path.insert(0, D)
from config import RUNS
cf = D + '/costs.json'
costs = json.load(open(cf)) if os.path.exists(cf) else {}
for p in RUNS:
    f = '%s/evidence/%s.json' % (V, p)
    if os.path.exists(f):
        for r in json.load(open(f))['coverage']['runs']:
            if not r.get('why') and not r.get('violations'):
                costs[p + '/' + r['name']] = [r['paths'], r['branches'], r['z3_queries'], round(r['wall_s'])]
json.dump(costs, open(cf, 'w'), indent=0, sort_keys=True)
o = ['| run | tier | bounds | paths | branches | z3 queries | s |', '|---|---|---|---|---|---|---|']
for p in RUNS:
    for r in RUNS[p]:
        c = costs.get(p + '/' + r['name'], ['', '', '', ''])
        o.append('| %s/%s | %s | %s | %s |' % (p, r['name'], {'both': 'quick', 'quick': 'quick only'}.get(r['tier'], r['tier']), r['what'], ' | '.join(map(str, c))))
runs = '\n'.join(o)
fixed = '\n'.join('* ' + re.sub(r'^fixed: property=(\S+) (\S+) ', r'**\1** `\2`: ', x) for x in json.load(open(V + '/known_findings.json'))['fixed'])
rf = D + '/seeded_results.json'
res = json.load(open(rf)) if os.path.exists(rf) else {}
o = ['| bug | property | what it breaks | first verdict | now |', '|---|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = d.split('/')[-2]
    m = json.load(open(d))
    r = res.get(i, {})
    o.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), r.get('first', ''), r.get('now', '')))
seeded = '\n'.join(o)
s = open(V + '/DESIGN.md').read()
for k, t in (('runs', runs), ('fixed', fixed), ('seeded', seeded)):
    a = '<!-- %s -->\n' % k
    i = s.index(a) + len(a)
    j = s.index('<!-- end -->', i)
    s = s[:i] + t + '\n' + s[j:]
open(V + '/DESIGN.md', 'w').write(s)
