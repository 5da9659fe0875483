#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design.md, the properties and seeded/."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
B = json.load(open(os.path.join(H, 'sim', 'budget.json')))['properties']
D = {}
cur = None
head, tailp = [], []
for line in open(os.path.join(H, 'tools', 'design.md')):
    if line.startswith('@@'):
        cur = line[2:].strip()
        D[cur] = ''
    elif cur is None:
        head.append(line)
    else:
        D[cur] += line
out = ''.join(head)
out += '\n## The properties, one by one\n\n'
for p in P:
    i = p['id']
    out += '### %s. %s\n\n' % (i, p['title'])
    if i in B:
        b = B[i]
        out += 'Simulated: %s\n\n' % ' '.join(b['rule'].split())
    out += D.pop(i, '(not described yet)\n').strip() + '\n\n'
    if i in B:
        out += ('Bounds: quick %d runs, thorough %d runs (%d per chunk, one '
                'seed per run). Stubs: %s. ' % (
                    b['quick'] * b['chunk'], b['thorough'] * b['chunk'],
                    b['chunk'], b['stub']))
        out += 'Out of reach of tests because: %s\n\n' % p['why_tests_cant']
out += D.pop('TAIL', '')
rows = []
S = os.path.join(H, 'seeded')
missed = json.load(open(os.path.join(H, 'tools', 'missed.json')))
for b in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, b, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (
        b, m['property'], m['needs'].replace('|', '/'),
        missed.get(b, 'caught at once')))
out = out.replace('@TABLE@', '| bug | property | needs | caught |\n'
                  '|---|---|---|---|\n' + '\n'.join(rows))
out = out.replace('@NB@', str(len(rows)))
assert not D, D.keys()
open(os.path.join(H, 'DESIGN.md'), 'w').write(out)
