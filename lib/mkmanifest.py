#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 lib/mkmanifest.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import checks as C
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py',
     'hooks': {'guard': 'PSI_VERIF_HOOKS', 'enable': 'lib/build.py compiles /repo with -DPSI_VERIF_HOOKS=1; no source hooks were needed, so far nothing in /repo is guarded by it', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in C.CHECKS:
        c = C.CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
                            'technique': c['technique'], 'level': 'exploration', 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': C.NOT_APPLICABLE.get(i, 'the check for this property is not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
