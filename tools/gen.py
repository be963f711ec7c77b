#!/usr/bin/env python3
"""Single source of truth for properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # properties
CL = {}         # id -> (technique, level_note)   for claimed ones
NA = {}         # id -> reason

def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)
    if na is not None:
        NA[id] = na
    else:
        CL[id] = (technique, note)

exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
claimed = [d['id'] for d in P if d['id'] in CL and os.path.exists(os.path.join(HERE, 'rules', d['id'].lower() + '.py'))]
man = dict(version=1,
           setup_cmd='python3 /verif/check.py --setup',
           checks=[dict(property=i,
                        quick_cmd='python3 check.py --property %s --tier quick' % i,
                        thorough_cmd='python3 check.py --property %s --tier thorough' % i,
                        technique=CL[i][0], level='other', level_note=CL[i][1]) for i in claimed],
           not_applicable=[dict(property=d['id'], reason=NA.get(d['id'], 'check not built yet')) for d in P if d['id'] not in claimed])
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties', len(claimed), 'claimed')
