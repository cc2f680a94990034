#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and rules/registry.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'tools'), os.path.join(V, 'rules')]
import props
from registry import RULES
NA = getattr(props, 'NA', {})
out = []
for p in props.P:
    pid, title, st, over, qt, why, files, mech = p[:8]
    if pid not in RULES and pid not in NA: continue
    assert len(title) <= 80, title
    out.append(dict(id=pid, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(o) + '\n' for o in out))
TECH = 'static analysis: path-sensitive abstract interpretation of the compiler\'s MIR with provenance terms and finite facts (no execution, no solver)'
tech = getattr(props, 'TECH', {})
note = getattr(props, 'NOTE', {})
m = dict(version=1, setup_cmd='./setup.sh', checks=[
    dict(property=o['id'], quick_cmd='python3 check.py %s' % o['id'], thorough_cmd='python3 check.py %s --tier thorough' % o['id'],
         technique=tech.get(o['id'], TECH), level='other',
         level_note=note.get(o['id'], 'Every path of the listed entry points, for all inputs and store contents, with loops followed for their first iterations and, where the rule needs it, from a widened state; library containers, locks and conversions are trusted to behave as modelled.'))
    for o in out if o['id'] in RULES],
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
    notes='check.py rebuilds the program facts from /repo\'s working tree when they changed and runs the rules of one property; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(out), 'properties,', len(m['checks']), 'checks,', len(NA), 'not applicable')
