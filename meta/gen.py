#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table in props.py."""
import json
import os
import sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import props

V = os.path.dirname(H)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=' '.join(p['statement'].split()),
            quantifier=dict(over=p['over'], text=' '.join(p['quant'].split())),
            why_tests_cant=' '.join(p['why'].split()),
            anchors=dict(files=p['files'], state=[dict(name=a, meaning=b) for a, b in p.get('state', ())],
                         mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         observe_at=p.get('observe', []), hook_needed=None))) + '\n')
checks, na = [], []
for p in props.P:
    if 'na' in p:
        na.append(dict(property=p['id'], reason=' '.join(p['na'].split())))
    elif os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
                           thorough_cmd='python3 check.py %s --thorough' % p['id'],
                           technique=p['technique'], level='other', level_note=' '.join(p['note'].split())))
    else:
        na.append(dict(property=p['id'], reason='no check has been built yet'))
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0,\'sa\'); import build"', checks=checks,
         not_applicable=na,
         notes='Every check compiles the sources of the working tree of /repo to LLVM IR with clang and analyses that; see DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
