#!/usr/bin/env python3
"""fills the tables of DESIGN.md (between markers) from properties.jsonl, dev/design_rows.json, known_findings.json and seeded/"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(H + '/dev/design_rows.json'))
man = json.load(open(H + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
out = ['<!-- properties -->', '| id | property | how it is decided |', '|---|---|---|']
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)
    out.append('| %s | %s | %s |' % (p['id'], p['title'], 'NOT APPLICABLE: ' + na[p['id']] if p['id'] in na else T[p['id']]))
out.append('<!-- /properties -->')
k = json.load(open(H + '/known_findings.json'))
f = ['<!-- findings -->'] + ['* ' + x for x in k['fixed']] + ['* KNOWN (open): property=%s %s' % (x['property'], x['what']) for x in k['findings']] + ['<!-- /findings -->']
res = json.load(open(H + '/dev/seeded_results.json')) if os.path.exists(H + '/dev/seeded_results.json') else {}
s = ['<!-- seeded -->', '| change | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % d))
    s.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'], m['needs'], res.get(d, '?')))
s.append('<!-- /seeded -->')
txt = open(H + '/DESIGN.md').read()
for name, block in (('properties', out), ('findings', f), ('seeded', s)):
    b = '\n'.join(block)
    if '<!-- %s -->' % name in txt:
        txt = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (name, name), lambda m: b, txt, flags=re.S)
    else:
        txt += '\n' + b + '\n'
open(H + '/DESIGN.md', 'w').write(txt)
