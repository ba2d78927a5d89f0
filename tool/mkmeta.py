#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/*.py (one dict per property)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, na = [], []
for f in sorted(glob.glob(os.path.join(V, 'meta', '*.py'))):
    ns = {}
    exec(open(f).read(), ns)
    props += ns.get('PROPS', [])
checks = []
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in props:
        d = {'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
             'quantifier': {'over': p['over'], 'text': ' '.join(p['qtext'].split())},
             'why_tests_cant': ' '.join(p['why'].split()),
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        if 'observe' in p: d['anchors']['observe_at'] = p['observe']
        assert len(d['title']) <= 80, d['title']
        o.write(json.dumps(d) + '\n')
        if 'na' in p: na.append({'property': p['id'], 'reason': ' '.join(p['na'].split())})
        else:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                           'technique': ' '.join(p['technique'].split()), 'level': p.get('level', 'proof'), 'level_note': ' '.join(p['note'].split())})
json.dump({'version': 1, 'setup_cmd': 'bash tool/setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only; see DESIGN.md. No hooks in /repo.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
