#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one description"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'irdv'))
S = 'ADOL-C/src/'
I = 'ADOL-C/include/adolc/'
P = []
NA = {}


def prop(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)))


exec(open(os.path.join(H, 'tools', 'props.txt')).read())
import registry
claimed = [p['id'] for p in P if p['id'] in registry.PROPS]
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
checks = []
for c in claimed:
    pr = registry.PROPS[c]
    checks.append(dict(property=c, quick_cmd=f'./check.py {c}', thorough_cmd=f'VERIF_TIER=thorough ./check.py {c}', technique=TECH,
                       level=pr.level, level_note=NOTES.get(c, NOTE)))
na = [dict(property=p['id'], reason=NA[p['id']]) for p in P if p['id'] not in claimed]
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='See DESIGN.md. Checks compile the current working tree of /repo to LLVM IR and verify the real functions against contracts.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(claimed), 'claimed')
