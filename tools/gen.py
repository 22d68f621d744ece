#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
from props import PROPS  # noqa: E402

NOTE = ('Sound up to the stated abstractions for the code shapes of this '
        'package: decides the structural clause named in DESIGN.md on every '
        'path of the current sources; dynamic dispatch is over-approximated '
        'by name; eval/exec of user code is opaque. ')
out, checks, na = [], [], []
for p in PROPS:
    d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier',
                           'why_tests_cant', 'anchors')}
    assert len(d['title']) <= 80, d['title']
    d['anchors'].setdefault('hook_needed', None)
    out.append(json.dumps(d))
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py ' + p['id'],
            'thorough_cmd': 'python3 check.py ' + p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'static analysis: ' + p['technique'],
            'level': 'other',
            'level_note': NOTE + p.get('note', '')})
V = os.path.dirname(HERE)
with open(os.path.join(V, 'properties.jsonl'), 'w') as fp:
    fp.write('\n'.join(out) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fp:
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --parse-only',
               'checks': checks, 'not_applicable': na,
               'notes': 'No hooks: the checks only read the sources of /repo.'},
              fp, indent=1)
    fp.write('\n')
