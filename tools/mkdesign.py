#!/usr/bin/env python3
"""puts DESIGN.md together from tools/design/*.md, known_findings.json and seeded/*/meta.json"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, 'tools', 'design')
rd = lambda n: open(os.path.join(D, n)).read()
k = json.load(open(os.path.join(V, 'known_findings.json')))
out = rd('head.md')
for x in k['fixed']:
    p, c, what = x.split('property=')[1].split(' ', 2)
    out += '* %s `%s` %s\n' % (p, c, what)
out += rd('mid.md')
for x in k['findings']:
    out += '* %s `%s`: %s\n' % (x['property'], x['signature'], x['what'])
out += rd('tail.md')
out += '| bug | property | needs | notes |\n|---|---|---|---|\n'
notes = json.load(open(os.path.join(D, 'notes.json')))
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    out += '| %s | %s | %s | %s |\n' % (i, j['property'], j['needs'], notes.get(i, ''))
out += rd('end.md').replace('MUTANTS', rd('mutants.md').strip())
open(os.path.join(V, 'DESIGN.md'), 'w').write(out)
