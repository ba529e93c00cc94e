#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; both files are committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import suites as S
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LY = 'legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp'
AY = 'apps/multiphysics/src/input/Yaml.cpp'
P = []
NA = []
NOTE = {}


def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))
    if note:
        NOTE[id] = note
    if na:
        NA.append(dict(property=id, reason=na))


exec(open(os.path.join(V, 'bin', 'props_text.py')).read())

for p in P:
    assert len(p['title']) <= 80, p['id']
    n = p['statement'].count('. ') + 1
    assert n <= 3, (p['id'], n)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
claimed = [p['id'] for p in P if p['id'] in S.PROPS]
na_ids = {n['property'] for n in NA}
for p in P:
    if p['id'] not in claimed and p['id'] not in na_ids:
        print('neither claimed nor not applicable:', p['id'])
        NA.append(dict(property=p['id'], reason='No check has been built yet.'))
man = dict(version=1, setup_cmd='bin/setup',
           checks=[dict(property=i, quick_cmd='bin/check %s --tier quick' % i, thorough_cmd='bin/check %s --tier thorough' % i,
                        technique='deterministic simulation with fault injection: seeded search over simulated runs, minimised replayable traces',
                        level='exploration', level_note=NOTE[i]) for i in claimed],
           not_applicable=NA,
           notes='No hooks were needed in /repo: every seam is an interface of the code (streams, C library calls, templates, include paths) that the simulator implements. Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(claimed), 'claimed')
