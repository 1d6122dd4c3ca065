#!/usr/bin/env python3
"""Fills the generated lists of DESIGN.md (between markers)."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
s = open(V + '/DESIGN.md').read()
fix = '\n'.join('* %s `%s` %s' % (k['property'], k['commit'][:7], re.sub(r'^fixed: property=\S+ \S+ (fix: )?', '', k['what']))
                for k in sorted(json.load(open(V + '/known_findings.json')), key=lambda k: k['property']))
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + d + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '\\|'), res.get(d, 'not run')))
def put(name, text):
    global s
    b, e = '<!-- %s -->' % name, '<!-- /%s -->' % name
    block = b + '\n' + text + '\n' + e
    if b in s:
        s = s[:s.index(b)] + block + s[s.index(e) + len(e):]
    else:
        s = s.replace(name + '\n', block + '\n', 1)
put('FIXLIST', fix)
put('SEEDTABLE', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
