#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/claims.json and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
claims = json.load(open(here + '/tools/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    c = claims.get(i)
    if c and 'technique' in c:
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': c['technique'], 'level': 'other', 'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': (c or {}).get('reason', 'not claimed yet: the checker is still being built')})
m = {'version': 1, 'setup_cmd': 'bash -c ". /opt/vp/env.sh; cd xxverif && GOFLAGS=-mod=mod GOSUMDB=off go build -o /dev/null ."',
     'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis by abstract interpretation of the type-checked SSA form of /repo; see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
