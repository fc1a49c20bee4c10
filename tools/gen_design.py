#!/usr/bin/env python3
"""Refreshes the tables of DESIGN.md (budgets, fixed, seeded)."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def put(s, tag, body):
    return re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (tag, tag), lambda m: m[1] + body + m[2], s, flags=re.S)
s = open(H + '/DESIGN.md').read()
b = '| property | sub-check | drive | quick cases | thorough cases |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob(H + '/harness/src/props/c[0-9]*.rs')):
    for m in re.finditer(r'Sub \{ name: "([^"]+)", drive: Drive::(\w+), quick: ([^,]+), thorough: ([^,]+),', open(f).read()):
        b += '| %s | %s | %s | %s | %s |\n' % (os.path.basename(f)[:3].upper(), m[1], m[2], m[3].replace('_', ','), m[4].replace('_', ','))
s = put(s, 'budgets', b)
b = ''.join('* %s\n' % l[len('fixed: property='):].strip() for l in open(H + '/known_findings.txt') if l.startswith('fixed:'))
s = put(s, 'fixed', b)
notes = dict(l.rstrip('\n').split('\t')[:2] for l in open(H + '/tools/caught.tsv') if '\t' in l)
b = '| id | property | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    b += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], notes.get(i, m['property']))
s = put(s, 'seeded', b)
open(H + '/DESIGN.md', 'w').write(s)
