#!/usr/bin/env python3
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + '/tools/claims.json'))
o = open(V + '/tools/design_head.md').read()
U = {}
for f in sorted(glob.glob(V + '/verus/units/*.vrs')):
    for p in re.search(r'(?m)^//@ unit-props (.*)$', open(f).read()).group(1).split(): U.setdefault(p, []).append(os.path.basename(f)[:-4])
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); p = d['id']
    o += '\n### %s %s\n\n' % (p, d['title'])
    if p not in C['claims']: o += 'Not applicable: %s.\n' % C['na'][p]; continue
    c = C['claims'][p]
    if U.get(p): o += '*Units* %s. *Under contract:* %s.\n\n' % (', '.join('`%s`' % u for u in U[p]), c['proved'])
    else: o += '*No function under contract yet*; bounded only.\n\n'
    if c.get('why'): o += '*Why the tests cannot settle it, and what is not proved:* %s\n\n' % c['why']
    o += '*Bounded:* %s\n' % c.get('bounded', '')
o += '\n## 8. Genuine defects\n\nAll were found by the checks above on the original tree. %d were repaired by small `fix:` commits (list: `known_findings.txt`), the open ones are:\n\n' % len([1 for l in open(V + '/known_findings.txt') if l.startswith('fixed:')])
for l in open(V + '/known_findings.txt'):
    if l.startswith('finding:'): o += '* ' + l[8:].strip() + '\n'
o += open(V + '/tools/design_tail.md').read()
R = json.load(open(V + '/tools/seeded_results.json')) if os.path.exists(V + '/tools/seeded_results.json') else {}
o += '\n## 10. Planted bugs\n\n| id | property | breaks | needs | caught by |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    o += '| %s | %s | %s | %s | %s |\n' % (i, m['property'], m['what_it_breaks'], m['needs'], R.get(i, '?'))
open(V + '/DESIGN.md', 'w').write(o)
