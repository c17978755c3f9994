#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between the markers) from the seeded bugs, the manifest and the findings."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md'); s = open(p).read()
def put(name, text):
    global s
    a, b = '<!--%s-->' % name, '<!--/%s-->' % name
    if '@@%s@@' % name in s: s = s.replace('@@%s@@' % name, a + b)
    s = re.sub(re.escape(a) + '.*?' + re.escape(b), lambda m: a + text + b, s, flags=re.S)
rows = ['\n| bug | property and check | what it breaks | needs |\n|---|---|---|---|\n']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|')))
put('SEEDS', ''.join(rows))
k = open(V + '/known_findings.txt').read().splitlines()
put('NFIX', str(sum(l.startswith('fixed:') for l in k))); put('NFIND', str(sum(l.startswith('finding:') for l in k)))
na = json.load(open(V + '/MANIFEST.json')).get('not_applicable', [])
put('NA', ''.join('\n* %s: %s' % ((x['property'] if 'property' in x else x.get('id', '?')), x['reason']) for x in na) or '\nEvery property is claimed.')
open(p, 'w').write(s)
