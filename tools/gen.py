#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from analysis/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'analysis'))
from registry import PROPS

with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for k in sorted(PROPS):
        p = PROPS[k]
        assert len(p['title']) <= 80, (k, len(p['title']))
        d = {'id': k, 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']]}}
        fh.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 analysis/extract.py default perf',
     'checks': [], 'not_applicable': [],
     'notes': 'Every check is static: it compiles the current tree with a rustc driver (no code of the tree is executed) '
              'and analyses the type-checked MIR. See DESIGN.md.'}
for k in sorted(PROPS):
    p = PROPS[k]
    if p['module']:
        m['checks'].append({'property': k, 'quick_cmd': './check.sh %s quick' % k, 'thorough_cmd': './check.sh %s thorough' % k,
                            'evidence_file': 'evidence/%s.json' % k, 'technique': 'static analysis: ' + p['technique'],
                            'level': p['level'], 'level_note': p['note']})
    else:
        m['not_applicable'].append({'property': k, 'reason': p['na']})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
