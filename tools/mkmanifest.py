#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed iff zsv/props/<id>.py exists."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the graph the real code builds (zsv VC engine + z3)'
NOTES = json.load(open(os.path.join(H, 'tools', 'levels.json')))
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(H, 'zsv/props', p.lower() + '.py')):
        n = NOTES.get(p, {})
        checks.append(dict(property=p, quick_cmd='bin/check %s --tier quick' % p,
                           thorough_cmd='bin/check %s --tier thorough' % p,
                           technique=n.get('technique', TECH), level=n.get('level', 'proof'),
                           level_note=n.get('note', 'Obligations generated from the code of /repo on every run and '
                                            'discharged for all element values and axis sizes; operator semantics of '
                                            'TensorFlow are assumed contracts; reals instead of floats.')))
    else:
        na.append(dict(property=p, reason='no check registered yet (work in progress)'))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='See DESIGN.md. No hooks are added to /repo; the checks import the working tree of /repo directly.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
