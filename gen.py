#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from lslsa/props.py."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from lslsa import props, registry
na = getattr(props, 'NA', [])
with open(os.path.join(here, 'properties.jsonl'), 'w') as fh:
    for pid in sorted(list(props.P) + [n[0] for n in na]):
        if pid in props.P:
            p = props.P[pid]
        else:
            p = dict([n for n in na if n[0] == pid][0][1])
        assert len(p['title']) <= 80, (pid, len(p['title']))
        fh.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                             'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 /verif/setup.py', 'checks': [], 'not_applicable': [{'property': n[0], 'reason': n[2]} for n in na],
     'notes': 'All checks are pure static analysis of /repo\'s working tree: check.py <ID>. See DESIGN.md.'}
for pid in sorted(registry.CHECKS):
    p = props.P[pid]
    m['checks'].append({'property': pid, 'quick_cmd': 'python3 /verif/check.py %s --tier quick' % pid, 'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % pid,
                        'evidence_file': 'evidence/%s.json' % pid, 'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
with open(os.path.join(here, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
