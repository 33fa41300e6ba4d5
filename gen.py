#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props/meta.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'props'))
import meta
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in meta.PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in meta.PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': './check %s' % p['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough ./check %s' % p['id'],
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['level_note'],
                       'evidence_file': 'evidence/%s.json' % p['id']})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: a rustc driver dumps typed MIR with resolved callees of the current /repo; '
              'rules run over it. No hooks in /repo; the commits there are fix: commits only.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(meta.PROPS), 'properties', len(checks), 'checks')
