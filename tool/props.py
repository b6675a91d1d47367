#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: tool/props.py)."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import registry

P = []      # claimed or planned
NA = {}     # id -> reason


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), technique=None, note=None, na=None, state=()):
    assert len(title) <= 80, id
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(name=a, meaning=b, where=w) for a, b, w in state],
                                mechanism=[dict(name=a, where=b) for a, b in mechanism],
                                observe_at=list(observe), hook_needed=None)), technique, note, na))


exec(open(os.path.join(V, 'tool', 'props_text.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, _, _, _ in P:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p, tech, note, reason in P:
    if p['id'] in registry.TABLE and not reason:
        checks.append(dict(property=p['id'], quick_cmd='bin/check %s' % p['id'], thorough_cmd='bin/check %s thorough' % p['id'],
                           technique=tech, level=registry.TABLE[p['id']][2], level_note=note))
    else:
        na.append(dict(property=p['id'], reason=reason or 'no check built yet'))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='All checks analyse LLVM IR compiled from /repo on every run; nothing of /repo is executed.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
