#!/usr/bin/env python3
"""Fill the generated parts of DESIGN.md (rules' own descriptions, fixes, planted bugs)."""
import json, os, re, sys, textwrap
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from msv import rules
from tools.techniques import TECH, NA, DESIGN
t = open(os.path.join(H, 'tools', 'DESIGN.in.md')).read()
ps = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]


def wrap(s, ind='  '):
    return '\n'.join(textwrap.wrap(' '.join(s.split()), 150, initial_indent=ind, subsequent_indent=ind, break_long_words=False))


out = []
for p in ps:
    i = p['id']
    if i not in rules.RULES:
        continue
    out.append('### %s %s\n' % (i, p['title']))
    out.append(wrap(rules.RULES[i].__doc__ or '', ''))
    if i in DESIGN:
        out.append('')
        out.append(wrap(DESIGN[i], ''))
    out.append('')
fx = [f['entry'] for f in json.load(open(os.path.join(H, 'known-findings.json')))['findings']]
sd = []
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    sd.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'], m['needs'], m.get('caught', m['property'])))
t = t.replace('@@PROPS@@', '\n'.join(out).rstrip())
t = t.replace('@@FIXES@@', '\n'.join('* %s' % f[len('fixed: '):] for f in fx))
t = t.replace('@@SEEDS@@', '| change | breaks | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(sd))
t = t.replace('@@NA@@', '\n'.join('* **%s** %s %s' % (p['id'], p['title'] + '.', NA[p['id']]) for p in ps if p['id'] in NA))
open(os.path.join(H, 'DESIGN.md'), 'w').write(t)
