#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/propdata.py and tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import propdata, props
V = os.path.dirname(here)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in propdata.PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': p['quantifier'],
            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': m, 'where': p['files'][0]} for m in p['mech']],
            'observe_at': ['the library\'s public API'] + (['the system calls it makes'] if p['id'][0] in 'FOIB' else []), 'hook_needed': None}}) + '\n')
checks, na = [], []
for p in propdata.PROPS:
    s = props.PROPS.get(p['id'])
    if s and not p['na']:
        checks.append({'property': p['id'], 'quick_cmd': './check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check.py ' + p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'deterministic simulation with fault injection: ' + s['technique'], 'level': 'exploration',
            'level_note': s['note']})
    else:
        na.append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
m = {'version': 1, 'setup_cmd': './check.py --build all', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is a libc symbol taken over at link time (or compiler instrumentation for threads). See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
