#!/usr/bin/env python3
"""DESIGN.md from tools/design.in.md, properties.jsonl, checks.py, KNOWN_FINDINGS.json and seeded/."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
import checks
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
costs = {}
for f in sys.argv[1:]:                      # sweep logs: "C05 rc=0 77s ..."
    for l in open(f):
        w = l.split()
        if len(w) > 2 and w[2].endswith('s'):
            costs[w[0]] = w[2][:-1]
costfile = root + '/tools/costs.json'
if costs:
    json.dump(costs, open(costfile, 'w'), indent=0, sort_keys=True)
else:
    costs = json.load(open(costfile))
table = []
for p in props:
    c = checks.PROPS[p['id']]
    src = sorted({r['src'] for r in c['runs']})
    ents = []
    for r in c['runs']:
        if r['entry'] not in ents:
            ents.append(r['entry'])
    table.append('### %s %s\n' % (p['id'], p['title']))
    table.append('%s\n' % p['statement'])
    table.append('*Decided by* `harness/%s`: %s. Quick check %s s.\n' % (', '.join(src), ', '.join('`%s`' % e for e in ents), costs.get(p['id'], '?')))
    table.append('*Within:* %s\n' % c['bounds'])
    if c['outside']:
        table.append('*Outside:* %s\n' % c['outside'])
kf = json.load(open(root + '/KNOWN_FINDINGS.json'))
fixes = ['* %s' % e['what'].replace('fixed: property=', '') for e in kf if e['status'] == 'fixed']
starred = set(open(root + '/tools/strengthened.txt').read().split())
seeds = ['| change | property | what it breaks |', '|---|---|---|']
n = 0
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (root, d)))
    n += 1
    seeds.append('| %s%s | %s | %s |' % (d, ' \\*' if d in starred else '', m['property'], m['what_it_breaks'].replace('|', '\\|')))
t = open(root + '/tools/design.in.md').read()
for k, v in (('@TABLE@', '\n'.join(table)), ('@FIXES@', '\n'.join(fixes)), ('@SEEDS@', '\n'.join(seeds)), ('@NFIXED@', str(len(fixes))),
             ('@NSEEDS@', str(n)), ('@NPROPS@', str(len(props)))):
    t = t.replace(k, v)
open(root + '/DESIGN.md', 'w').write(t)
