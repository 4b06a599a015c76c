#!/usr/bin/env python3
# writes DESIGN.md from tools/design.txt, the properties, the bounds and the recorded results of the planted bugs
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root + '/tools')
from how import HOW
from bounds import B
t = open(root + '/tools/design.txt').read()
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
out = []
for p in props:
    i = p['id']; m = B[i]; run, oracle = HOW[i]
    src = open('%s/harness/%s/%s.go' % (root, i.lower(), i.lower())).read()
    hs = re.findall(r'^func (Harness\w+)', src, re.M)
    out += ['### %s %s' % (i, p['title']), '', 'Harnesses: ' + ', '.join(hs) + '.', '',
            '- *run*: ' + run, '- *oracle*: ' + oracle, '- *bounds*: ' + m['bounds'], '- *outside*: ' + m['outside']]
    if m['assumptions']: out.append('- *assumptions*: ' + '; '.join(m['assumptions']))
    if m.get('note'): out.append('- *note*: ' + m['note'])
    out.append('')
t = t.replace('@@PROPERTIES@@', '\n'.join(out).strip())
res = json.load(open(root + '/tools/seeds.json'))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for s in sorted(res, key=lambda s: (res[s]['property'], s)):
    r = res[s]
    rows.append('| %s | %s | %s | %s |' % (s, r['property'], r['needs'].replace('|', '/'), r['by'] or '**missed**'))
t = t.replace('@@SEEDS@@', '\n'.join(rows))
t = t.replace('@@MUTANTS@@', open(root + '/tools/mutants.txt').read().strip())
open(root + '/DESIGN.md', 'w').write(t)
