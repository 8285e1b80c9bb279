#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (planted bugs, not applicable) from seeded/ and MANIFEST.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = '| bug | caught by | needs |\n|----|----|----|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    t += '| %s | %s | %s |\n' % (f.split('/')[-2], m['property'], m['needs'])
n = ''.join('- %s: %s\n' % (x['property'], x['reason']) for x in json.load(open(V + '/MANIFEST.json'))['not_applicable'])
d = open(V + '/DESIGN.md').read()
for k, v in (('SEEDED', t), ('NA', n)):
    d = re.sub(r'<!--%s-->.*?<!--/%s-->' % (k, k), lambda _: '<!--%s-->\n%s<!--/%s-->' % (k, v, k), d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
