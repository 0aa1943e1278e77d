#!/usr/bin/env python3
"""rewrites the tables of DESIGN.md from harness/registry.py and seeded/*/meta.json"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
import registry
s = open(V + '/DESIGN.md').read()
def put(s, tag, t): return re.sub(r'<!-- %s -->.*<!-- /%s -->' % (tag, tag), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, t, tag), s, flags=re.S)
T = []
for p in sorted(registry.CHECKS):
    c = registry.CHECKS[p]
    T.append('\n**%s** %s' % (p, c['note']))
    if c['assumptions']: T.append('Assumptions: ' + '; '.join(c['assumptions']) + '.')
    T.append('')
    for h in c['harnesses']:
        q, t = h['quick']['bound'], h['thorough']['bound']
        T.append('- `%s` (%s): %s' % (h['name'], h['src'], 'thorough only: ' + t if h.get('thorough_only') else q + ('; thorough: ' + t if t and t != q else '')))
s = put(s, 'bounds', '\n'.join(T))
R = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
first = {'assign-order': 'C15 after strengthening', 'queue-dedup': 'C10 after strengthening', 'skip-active': 'C03 after strengthening'}
first.update(json.load(open(V + '/tools/catches.json')) if os.path.exists(V + '/tools/catches.json') else {})
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    R.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], first.get(i, m['property'] + ', first')))
s = put(s, 'seeded', '\n'.join(R))
open(V + '/DESIGN.md', 'w').write(s)
